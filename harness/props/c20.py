"""C20: when searches end and why, from a reference replay of the observed evaluations."""
import numpy as np
from hypothesis import strategies as st

from .. import flow, gen, open_space, runs, sut
from ..engine import Family
from .c18 import Recorder, f_spec
from quocslib.gradientfreemethods.CMAES import CMAES
from quocslib.gradientfreemethods.NelderMead import NelderMead

KINDS = {"evaluation": "eval", "simplex": "simplex", "fom": "fatol", "time": "time", "change": "cbs", "user": "global",
         "global": "global"}


def kinds_of(reason):
    s = str(reason).lower()
    return {k for w, k in KINDS.items() if w in s}


def dyadic(a):
    a = np.asarray(a, float) * 2 ** 16
    return bool(np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 36))


def tri(value, limit, tol, exact):
    """value <= limit: True, False or None when rounding decides."""
    if limit < 0:
        return False
    if not exact and abs(value - limit) <= tol:
        return None
    return bool(value <= limit)


def at_end(sim, fs, count, sc, elapsed, exact_x):
    """Which conditions hold at this iteration end (True / False / None: too close to tell)."""
    n = len(fs)
    c = {"eval": count >= sc.get("max_eval", 1e10)}
    if sim is not None:
        c["simplex"] = tri(float(np.max(np.abs(sim[1:] - sim[0]))), sc.get("xatol", 1e-14), 1e-10 * (1 + np.abs(sim).max()),
                           exact_x and dyadic(sim))
    exact_f = dyadic(fs) and (n == 2 or bool(np.all(fs == fs[0])))
    c["fatol"] = tri(float(np.std(fs)), sc.get("fatol", 1e-100), 1e-12 * (1 + np.abs(fs).max()), exact_f)
    if elapsed is not None:
        c["time"] = elapsed / 60.0 >= sc.get("time_lim", 1e10)
    return c


def cbs_count(F, sc):
    """Number of evaluations at which the trend criterion fires for the first time: a count, None (never) or 'unclear'."""
    cb = sc.get("change_based_stop")
    if not cb or cb["cbs_funct_evals"] <= 1 or cb["cbs_change"] <= 0:
        return None
    w = cb["cbs_funct_evals"]
    t = np.arange(w) - (w - 1) / 2.0
    for k in range(w, len(F) + 1):
        v = np.array(F[k - w:k], float)
        change = abs(float(np.dot(t, v) / np.dot(t, t))) * w
        if abs(change - cb["cbs_change"]) <= 1e-9 * (1 + np.abs(v).max()):
            return "unclear"
        if change < cb["cbs_change"]:
            return k
    return None


def predict(alg, g, sc, X, F, elapsed):
    """(expected number of evaluations or None if no condition has held yet, kinds that hold there, last certain count)"""
    dim = X.shape[1]
    conds = []
    if alg == "CMAES":
        P = flow.population(dim, g.get("population"))
        for c in flow.cma_generation_ends(len(F), P):
            conds.append((c, at_end(None, np.array(F[c - P:c]), c, sc, None if elapsed is None else elapsed[c - 1], False)))
    elif len(F) >= dim + 1:
        _, ends = flow.nm_replay(X[:dim + 1], list(F), g.get("is_adaptive", False))
        for c, sim, fs in ends[1:]:
            conds.append((c, at_end(sim, fs, c, sc, None if elapsed is None else elapsed[c - 1],
                                    dim in (1, 2, 4) and not g.get("is_adaptive", False))))
    k = cbs_count(F, sc)
    if k == "unclear":
        return "unclear", set()
    kc = None
    if k is not None:
        kc = max(k, dim + 1) if alg != "CMAES" else -(-k // flow.population(dim, g.get("population"))) * flow.population(
            dim, g.get("population"))
    for c, cond in conds:
        if kc is not None and kc < c:
            break
        hold = {n for n, v in cond.items() if v}
        if kc == c:
            hold.add("cbs")
        if any(v is None for v in cond.values()):
            return ("unclear", set()) if not hold else (c, hold | {n for n, v in cond.items() if v is None})
        if hold:
            return c, hold
    if kc is not None:
        return kc, {"cbs"}
    return None, set()


LIM = [-1.0, -1.0, 0.0, 1e-6, 1e-3, 0.03, 0.25, 0.5, 1.0, 2.0]


@st.composite
def thresholds(draw, xatol=True, small=True):
    sc = {}
    for k in ("xatol", "fatol"):
        if draw(st.integers(0, 5)):
            sc[k] = draw(st.one_of(st.sampled_from(LIM), gen.fl(0.0, 1.0)))
    return sc


@st.composite
def unit_strategy(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 6]))
    alg = draw(st.sampled_from(["NelderMead", "NelderMead", "CMAES"]))
    co = st.one_of(gen.fl(-3, 3), st.integers(-8, 8).map(lambda i: i / 4.0))
    sc = draw(thresholds())
    sc["max_eval"] = draw(st.integers(1, 160))
    g = draw(gen.dsm_spec((alg,)))
    c = {"alg": alg, "g": g, "sc": sc, "f": draw(f_spec()), "seed": draw(st.integers(0, 2 ** 31))}
    if alg == "NelderMead":
        c["simplex"] = [draw(st.lists(co, min_size=n, max_size=n)) for _ in range(n + 1)]
    else:
        c["x0"] = draw(st.lists(co, min_size=n, max_size=n))
        c["sigma"] = draw(st.lists(gen.fl(0.05, 2.0), min_size=n, max_size=n))
    if draw(st.booleans()):
        c["repeat"] = True
    return c


def unit(case, ctx):
    sc = case["sc"]
    settings = dict(case["g"])
    alg = case["alg"]
    obj = None
    # the same search object is used for every super-iteration of a run, so it has to work a second time
    for rep in range(2 if case.get("repeat") else 1):
        rec = Recorder(case["f"])
        with sut.quiet(case["seed"]):
            if obj is None:
                obj = (NelderMead if alg == "NelderMead" else CMAES)(settings, dict(sc), callback=lambda: True)
            if alg == "NelderMead":
                S = np.array(case["simplex"], float)
                res = obj.run_dsm(rec, S[0].copy(), initial_simplex=S)
            else:
                res = obj.run_dsm(rec, np.array(case["x0"], float), sigma_v=np.array(case["sigma"], float))
        X, m = np.array(rec.x), len(rec.f)
        end, hold = predict(alg, settings, sc, X, rec.f, None)
        where = "search of %s in %d dimensions with %s (values end with %s)" % (alg, X.shape[1], sc, rec.f[-8:])
        if end == "unclear":
            ctx.label("too close to a threshold")
            continue
        ctx.expect(end is not None, "stopped-early", lambda: "%s ended after %d evaluations, no condition holds; reason %r" % (
            where, m, res["terminate_reason"]))
        ctx.expect(end == m, "stopped-late", lambda: "%s made %d evaluations, %s held after %d" % (where, m, hold, end))
        ks = kinds_of(res["terminate_reason"])
        ctx.expect(ks and ks <= hold, "reason", lambda: "%s ended because of %s but the reason is %r" % (
            where, hold, res["terminate_reason"]))
        ctx.label(alg, *hold)
        ctx.nt(bool(hold - {"eval"}) or m > X.shape[1] + 4)


@st.composite
def run_strategy(draw):
    c = draw(open_space.cfg(max_dim=4, max_eval_total=(20, 200)))
    sc = draw(thresholds())
    if draw(st.booleans()):
        sc["max_eval"] = draw(st.integers(8, 120))
    if draw(st.integers(0, 2)) == 0:
        sc["change_based_stop"] = {"cbs_funct_evals": draw(st.integers(2, 25)), "cbs_change": draw(
            st.one_of(gen.fl(0.001, 2.0), st.sampled_from([1e-3, 0.5, 5.0, 0.0])))}
    case = {"cfg": c, "obj": draw(gen.objective_spec(table=True)), "ticks": None}
    if draw(st.integers(0, 2)) == 0:
        case["ticks"] = draw(st.lists(st.sampled_from([5, 10, 15, 30, 30, 60, 120]), min_size=1, max_size=6))
        sc["time_lim"] = draw(st.integers(1, 200)) / 4.0
    c["algorithm_settings"]["dsm_settings"]["stopping_criteria"] = sc
    return case


def in_run(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    ds = a["dsm_settings"]
    g, sc = ds["general_settings"], ds["stopping_criteria"]
    alg = g["dsm_algorithm_name"]
    with sut.scratch():
        clock = sut.Clock() if case["ticks"] else None
        r = runs.run(cfg, case["obj"], attach=runs.attach_si, clock=clock, ticks=case["ticks"])
    n, stopped = len(r.evals), len(r.evals) >= a["max_eval_total"]
    segs = runs.segments(r.evals)
    kinds = set()
    for i, seg in enumerate(segs):
        X = np.array([open_space.x_of(e) for e in seg])
        # the trend is that of the internally minimised values
        F = [e["F"] for e in seg]
        el = None
        if clock is not None:
            t0, el = seg[0]["t"], []
            for e in seg:
                el.append(e["t"] - t0 + case["ticks"][(e["k"] - 1) % len(case["ticks"])])
        end, hold = predict(alg, g, sc, X, F, el)
        where = "search %d of the run (%s, %d dimensions, %s, values end with %s)" % (i + 1, alg, X.shape[1], sc, F[-8:])
        last = i == len(segs) - 1
        if end == "unclear":
            ctx.label("too close to a threshold")
            continue
        if last and stopped:
            ctx.expect(end is None or end >= len(seg), "run-stopped-late", lambda: "%s made %d evaluations, %s held after "
                       "%s" % (where, len(seg), hold, end))
            hold = (hold if end == len(seg) else set()) | {"global"}
        else:
            ctx.expect(end is not None, "run-stopped-early", lambda: "%s ended after %d evaluations, no condition holds; "
                       "final reason %r" % (where, len(seg), r.final.get("terminate_reason")))
            ctx.expect(end == len(seg), "run-stopped-late", lambda: "%s made %d evaluations, %s held after %d" % (
                where, len(seg), hold, end))
        if last:
            ks = kinds_of(r.final["terminate_reason"])
            ctx.expect(ks and ks <= hold, "run-reason", lambda: "%s ended because of %s but the reported reason is %r" % (
                where, hold, r.final["terminate_reason"]))
        kinds |= hold
    if not stopped:
        ctx.expect(len(segs) == a.get("super_iteration_number", 1), "run-ended", "the run ended after %d of %s searches" % (
            len(segs), a.get("super_iteration_number", 1)))
    runs.labels(ctx, cfg, r)
    ctx.label(*kinds)
    ctx.nt(bool(kinds - {"global", "eval"}))


FAMILIES = [Family("unit", unit_strategy, unit, 3200, 50000, rule="a search that ended for another reason than its number of "
                   "evaluations, or after at least four evaluations beyond the start"),
            Family("run", run_strategy, in_run, 960, 12000, rule="a search that ended because of its simplex, values, trend "
                   "or time")]
