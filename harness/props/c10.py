"""C10: seeded runs repeat exactly, whatever the global generators and earlier runs; other seeds give other searches."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family


@st.composite
def strategy(draw, algs=("dCRAB",), maxe=(3, 80)):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe, other=True))
    cfg["algorithm_settings"]["random_number_generator"] = {"seed_number": draw(st.integers(0, 2 ** 31 - 1))}
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True)), "g1": draw(st.integers(0, 2 ** 31)),
            "g2": draw(st.integers(0, 2 ** 31)), "between": draw(st.booleans())}


@st.composite
def feature_strategy(draw):
    case = draw(strategy())
    extra, what = draw(runs.features(case["cfg"]))
    return {**case, **extra, "what": sorted(what)}


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def same_runs(ctx, a, b, what):
    ctx.expect(len(a.evals) == len(b.evals), "number", "%s: %d and %d evaluations" % (what, len(a.evals), len(b.evals)))
    for x, y in zip(a.evals, b.evals):
        ctx.expect(sut.same_controls(x, y["pulses"], y["timegrids"], y["parameters"], 0.0), "controls", lambda: (
            "%s: evaluation %d differs by %s" % (what, x["k"], sut.diff_controls(x, y["pulses"], y["parameters"]))))
    ctx.expect(repr(plain(a.final)) == repr(plain(b.final)), "results", lambda: "%s: results %s and %s" % (
        what, a.final, b.final))
    if (a.file is None) != (b.file is None):
        ctx.fail("file", "%s: a best-controls file in one run only" % what)
    for k in a.file or {}:
        ctx.expect(k in b.file and np.array_equal(np.asarray(a.file[k]), np.asarray(b.file[k])), "file",
                   lambda: "%s: %s in the best-controls file differs" % (what, k))


def check(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        a = runs.run(cfg, case["obj"], gseed=case["g1"], **runs.extra_kw(case))
    if case["between"]:
        other = copy.deepcopy(cfg)
        other["algorithm_settings"]["random_number_generator"]["seed_number"] += 17
        other["algorithm_settings"]["max_eval_total"] = 5
        with sut.scratch():
            runs.run(other, case["obj"], gseed=case["g1"] // 2, **runs.extra_kw(case))
    with sut.scratch():
        b = runs.run(cfg, case["obj"], gseed=case["g2"], **runs.extra_kw(case))
    same_runs(ctx, a, b, "seed %s" % cfg["algorithm_settings"]["random_number_generator"]["seed_number"])
    runs.labels(ctx, cfg, a)
    ctx.label(*case.get("what", []))
    ctx.nt(len(a.evals) > 2 and case["g1"] != case["g2"])


@st.composite
def seeds_strategy(draw, algs=("dCRAB",), maxe=(6, 40)):
    case = draw(strategy(algs, maxe))
    cfg = case["cfg"]
    for p in cfg["pulses"]:
        p["upper_limit"], p["lower_limit"] = 500.0, -500.0
        p.pop("shrink_ampl_lim", None)
        if "lambda t, p" in str(p.get("scaling_function", "")):
            p.pop("scaling_function")
        # enough samples to see the differences
        low = 3 if p["basis"]["basis_name"] == "PiecewiseBasis" else 6
        if p["bins_number"] < low:
            p["bins_number"] = low
            for key in ("initial_guess", "scaling_function"):
                if p.get(key, {}).get("function_type") == "list_function":
                    p[key]["list_function"] = (p[key]["list_function"] * 6)[:p["bins_number"]]
    for q in cfg["parameters"]:
        q["lower_limit"], q["upper_limit"] = -500.0, 500.0
    s = cfg["algorithm_settings"]["random_number_generator"]["seed_number"]
    d = draw(st.one_of(st.integers(1, 300), st.integers(2, 31).map(lambda n: 2 ** n), st.integers(1, 9).map(lambda n: 10 ** n),
                       st.none()))
    case["seed2"] = draw(st.integers(0, 2 ** 31 - 1)) if d is None else s + d if draw(st.booleans()) else abs(s - d)
    return case


def seeds(case, ctx):
    cfg = case["cfg"]
    s1 = cfg["algorithm_settings"]["random_number_generator"]["seed_number"]
    if s1 == case["seed2"] or gen.dims(cfg) < 2:
        return
    c2 = copy.deepcopy(cfg)
    c2["algorithm_settings"]["random_number_generator"]["seed_number"] = case["seed2"]
    with sut.scratch():
        a = runs.run(cfg, case["obj"], gseed=case["g1"])
        b = runs.run(c2, case["obj"], gseed=case["g1"])
    n = min(len(a.evals), len(b.evals))
    same = all(sut.same_controls(x, y["pulses"], y["timegrids"], y["parameters"], 1e-9)
               for x, y in zip(a.evals, b.evals))
    ctx.expect(not same or n < 2, "seed-ignored", "seeds %d and %d give the same %d evaluations" % (s1, case["seed2"], n))
    runs.labels(ctx, cfg, a)
    ctx.nt(n >= 2)


FAMILIES = [Family("repeat", strategy, check, 720, 9000, rule="more than two evaluations, different global states"),
            Family("repeat-features", feature_strategy, check, 240, 3000, rule="as repeat"),
            Family("repeat-grape", lambda: strategy(("GRAPE",), (3, 30)), check, 160, 2000, rule="as repeat"),
            Family("repeat-ad", lambda: strategy(("AD",), (3, 6)), check, 24, 400, rule="as repeat"),
            Family("seeds", seeds_strategy, seeds, 240, 3000, rule="at least two evaluations with each of two seeds"),
            Family("seeds-grape", lambda: seeds_strategy(("GRAPE",), (3, 20)), seeds, 80, 1000, rule="as seeds"),
            Family("seeds-ad", lambda: seeds_strategy(("AD",), (3, 5)), seeds, 16, 200, rule="as seeds")]
