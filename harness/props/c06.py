"""C06: goal stops; metamorphic relation between the run without a goal and the runs with one."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, runs, sut
from ..engine import Family

DELTAS = [0.0, 0.0, 1e-12, -1e-12, 1e-3, -1e-3]


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(3, 70)):
    return {"cfg": draw(runs.any_cfg(algs=algs, max_eval_total=maxe, fmt=False)),
            "obj": draw(gen.objective_spec(table=True)), "pick": draw(st.integers(0, 10 ** 6)),
            "delta": draw(st.sampled_from(DELTAS)),
            "mode": draw(st.sampled_from(["value", "value", "record", "record", "never", "always"]))}


def check(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        free = runs.run(cfg, case["obj"])
        n = len(free.evals)
        F = [e["F"] for e in free.evals]
        mode = case["mode"]
        if mode == "never":
            g = min(F) - 1.0
        elif mode == "always":
            g = max(F) + 1.0
        else:
            pool = F if mode == "value" else sorted({min(F[:i + 1]) for i in range(n)}, reverse=True)
            g = pool[case["pick"] % len(pool)] + case["delta"]
        reach = [i for i in range(n) if F[i] <= g]
        want = reach[0] + 1 if reach else n
        goal_cfg = copy.deepcopy(cfg)
        goal_cfg["algorithm_settings"]["FoM_goal"] = float(free.sgn * g)
        r = runs.run(goal_cfg, case["obj"])
        ctx.expect(len(r.evals) == want, "stop-" + ("late" if len(r.evals) > want else "early"),
                   "goal %r (direction %s): %d evaluations, but the values %s reach it first at evaluation %s" % (
                       free.sgn * g, cfg["algorithm_settings"].get("optimization_direction"), len(r.evals),
                       [free.sgn * f for f in F[:want + 1]][-5:], want if reach else None))
        for a, b in zip(free.evals, r.evals):
            ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], 1e-12), "different-run",
                       "evaluation %d differs from the run without a goal" % a["k"])
        best = runs.best_of(r.evals)
        if reach:
            best = r.evals[want - 1]
        rep = r.final["Figure of merit"]
        ctx.expect(abs(rep - best["user"]) <= 1e-9 * max(1, abs(rep)), "reported", "reported %r, the evaluation that reached "
                   "the goal returned %r" % (rep, best["user"]))
        ctx.expect(int(r.file["iteration_number"]) == best["k"], "file", "the file describes evaluation %s instead of %d" % (
            r.file["iteration_number"], best["k"]))
        runs.labels(ctx, cfg, r)
        ctx.label("reached" if reach else "not reached", "exact" if case["delta"] == 0 else "offset")
        ctx.nt(bool(reach) and 1 < want < n)


@st.composite
def feature_strategy(draw):
    case = draw(strategy())
    extra, what = draw(runs.features(case["cfg"]))
    return {**case, **extra, "what": sorted(what)}


def with_features(case, ctx):
    """With re-evaluation or drift compensation the value of the record takes the place of the single value."""
    cfg = case["cfg"]
    kw = {**runs.extra_kw(case), "snapshot": True}
    with sut.scratch():
        free = runs.run(cfg, case["obj"], **kw)
        n = len(free.evals)
        # record value (minimised sign) when each evaluation is requested, as written in the best-controls file
        rec = [1e10 if e["snapshot"] is None else float(np.asarray(e["snapshot"]["FoM"])) for e in free.evals]
        rec.append(1e10 if free.file is None else float(np.asarray(free.file["FoM"])))
        pool = sorted({v for v in rec[1:] if v < 1e9})
        if not pool:        # no candidate was measured often enough to become the record
            return
        g = pool[case["pick"] % len(pool)] + case["delta"]
        goal_cfg = copy.deepcopy(cfg)
        goal_cfg["algorithm_settings"]["FoM_goal"] = float(free.sgn * g)
    kw = {**runs.extra_kw(case), "snapshot": True}
    with sut.scratch():
        r = runs.run(goal_cfg, case["obj"], **kw)
    m = len(r.evals)
    ctx.expect(m <= n, "stop-late", "%d evaluations with a goal, %d without" % (m, n))
    for a, b in zip(free.evals, r.evals):
        ctx.expect(sut.same_controls(a, b["pulses"], b["timegrids"], b["parameters"], 1e-12), "different-run",
                   "evaluation %d differs from the run without a goal" % a["k"])
    rep = r.final["Figure of merit"] * r.sgn
    if m < n:
        ctx.expect(rep <= g + 1e-9 * max(1, abs(g)), "stop-early", "the run with the goal %r ended after %d of %d evaluations "
                   "with %r" % (free.sgn * g, m, n, r.final["Figure of merit"]))
    if "drift" not in case["what"]:
        # after a super-iteration the compensated value is an average the file does not show; otherwise the file tells
        reach = [i for i in range(1, n) if rec[i] <= g]
        want = reach[0] if reach else n
        ctx.expect(m == want, "stop-late" if m > want else "stop-early", lambda: "goal %r: %d evaluations, the record reaches "
                   "it with evaluation %d of %d" % (free.sgn * g, m, want, n))
    runs.labels(ctx, cfg, r)
    ctx.label(*case["what"])
    ctx.nt(1 < m < n)


FAMILIES = [Family("gradient-free", strategy, check, 960, 12000,
                   rule="the goal is reached after the first and before the last evaluation of the free run"),
            Family("features", feature_strategy, with_features, 480, 6000, rule="as above"),
            Family("grape", lambda: strategy(("GRAPE",), (3, 30)), check, 240, 3000, rule="as above"),
            Family("ad", lambda: strategy(("AD",), (3, 6)), check, 24, 400, rule="as above")]
