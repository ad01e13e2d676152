"""C03: the reported best is the true best of the whole run."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from .. import pulsemodel as pm
from ..engine import Family


def strategy(algs, **kw):
    @st.composite
    def s(draw):
        return {"cfg": draw(runs.any_cfg(algs=algs, other=True, **kw)), "obj": draw(gen.objective_spec(table=True))}
    return s


def queried(ctx, cfg, r, best, tol):
    ctx.expect(sut.same_controls(best, r.best["pulses"], r.best["timegrids"], r.best["parameters"], tol),
               "queried-best", lambda: "get_best_controls gives pulses %s parameters %s, evaluation %d had %s %s (max "
               "difference %s)" % ([np.asarray(p)[:4] for p in r.best["pulses"]], r.best["parameters"], best["k"],
                                   [p[:4] for p in best["pulses"]], best["parameters"],
                                   sut.diff_controls(best, r.best["pulses"], r.best["parameters"])))


def bare(ctx, cfg, r):
    """The bare pulses are what guess, scaling and limits turn into the best pulses."""
    pulses = r.alg.get_best_bare_controls()["bare_pulses"]
    ctx.expect(len(pulses) == len(cfg["pulses"]), "bare", "%d bare pulses" % len(pulses))
    for p, b, full in zip(cfg["pulses"], pulses, r.best["pulses"]):
        steps = pm.steps_of(p)
        if "add_base_pulse" not in steps or "add_new_update_pulse" not in steps:
            continue
        if abs(steps.index("add_base_pulse") - steps.index("add_new_update_pulse")) != 1:
            continue
        want = pm.shape(p, pm.final_time(cfg, p), np.real(np.asarray(b)), 0.0)
        ctx.expect(sut.close(np.real(np.asarray(full)), want, 1e-7, 1e-7), "bare", lambda: (
            "the bare pulse %s of %s corresponds to %s, the best pulse is %s" % (b, p["pulse_name"], want, full)))


def check(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"])
        alg = runs.alg_name(cfg)
        best = runs.best_of(r.evals)
        ctx.expect(r.final is not None, "no-results", "no results file")
        rep = r.final["Figure of merit"]
        ctx.expect(abs(rep * r.sgn - best["F"]) <= 1e-9 * max(1, abs(best["F"])), "reported-fom",
                   "reported figure of merit %r, best returned %r (evaluation %d)" % (rep, best["user"], best["k"]))
        if alg == "AD":
            trim(cfg, best, r)
        runs.file_matches(ctx, cfg, r.file, best, "end", 1e-6 if alg == "AD" else 1e-12)
        queried(ctx, cfg, r, best, 2e-5 if alg == "AD" else 1e-7)
        if alg != "AD":
            bare(ctx, cfg, r)
        if alg == "DirectSearch":
            ctx.expect(sut.close(np.ravel(np.asarray(r.final["parameters"], float)), np.array(best["parameters"]),
                                 1e-12, 1e-12), "reported-parameters", lambda: (
                "reported parameters %s, best evaluation %d had %s" % (r.final["parameters"], best["k"],
                                                                      best["parameters"])))
        runs.labels(ctx, cfg, r)
        last = r.evals[-1]["k"]
        ctx.label("best last" if best["k"] == last else "best first" if best["k"] == 1 else "best inside")
        ctx.nt(best["k"] not in (1, last))


def trim(cfg, best, r):
    """jax runs carry zero-padded complex arrays: compare the real part of the used samples."""
    def cut(arrs):
        return [np.real(np.asarray(a))[:p["bins_number"]] for a, p in zip(arrs, cfg["pulses"])]
    best["pulses"], best["timegrids"] = cut(best["pulses"]), cut(best["timegrids"])
    r.best["pulses"], r.best["timegrids"] = cut(r.best["pulses"]), cut(r.best["timegrids"])
    if isinstance(r.file, dict):
        for p in cfg["pulses"]:
            for k in (p["pulse_name"], "time_grid_for_" + p["pulse_name"]):
                r.file[k] = np.real(np.asarray(r.file[k]))[:p["bins_number"]]


@st.composite
def query_strategy(draw):
    algs = ("dCRAB",) * 4 + ("DirectSearch", "GRAPE")
    return {"cfg": draw(runs.any_cfg(algs=algs, max_eval_total=(3, 60))), "obj": draw(gen.objective_spec(table=True)),
            "at": draw(st.lists(st.integers(0, 99), min_size=1, max_size=4, unique=True)),
            "bare": draw(st.booleans())}


def queries(case, ctx):
    """The best controls are asked for while the run is going on, and repeatedly afterwards: the run is not disturbed."""
    cfg = case["cfg"]
    with sut.scratch():
        free = runs.run(cfg, case["obj"])
    n = len(free.evals)
    at = {2 + a * (n - 1) // 100 for a in case["at"]}
    with sut.scratch():
        def attach(r):
            def hook(rec, res):
                if rec["k"] not in at:
                    return
                if case["bare"]:
                    r.alg.get_best_bare_controls()
                r.alg.get_best_controls()
            r.fom.hook = hook
        r = runs.run(cfg, case["obj"], attach=attach)
        ctx.expect(len(r.evals) == n, "query-disturbs", "%d evaluations with queries at %s, %d without" % (
            len(r.evals), sorted(at), n))
        for a, b in zip(free.evals, r.evals):
            ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], 1e-9), "query-disturbs",
                       "evaluation %d differs from the run without queries at %s" % (a["k"], sorted(at)))
        best = runs.best_of(r.evals)
        runs.file_matches(ctx, cfg, r.file, best, "after queries at %s" % sorted(at))
        for again in range(2):
            b = r.alg.get_best_controls()
            ctx.expect(sut.same_controls(best, b["pulses"], b["timegrids"], b["parameters"], 1e-7), "queried-again",
                       "the best controls change when they are asked for again")
        runs.labels(ctx, cfg, r)
        ctx.nt(any(2 <= a <= n for a in at))


FAMILIES = [Family("gradient-free", strategy(("dCRAB", "dCRAB", "DirectSearch")), check, 1600, 20000,
                   rule="the best evaluation is neither the first nor the last of the run"),
            Family("queries", query_strategy, queries, 320, 4000, rule="the best controls are asked for during the run"),
            Family("grape", strategy(("GRAPE",)), check, 320, 4000,
                   rule="the best evaluation is neither the first nor the last of the run"),
            Family("ad", strategy(("AD",), max_eval_total=(2, 8)), check, 48, 800,
                   rule="the best evaluation is neither the first nor the last of the run")]
