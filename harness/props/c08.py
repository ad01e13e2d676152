"""C08: time limits, on a virtual clock that only the figure of merit (and a pause before the run) advances."""
import copy

from hypothesis import strategies as st

from .. import flow, gen, runs, sut
from ..engine import Family

TICKS = st.sampled_from([0, 5, 10, 15, 15, 30, 30, 60, 120])


@st.composite
def strategy(draw, algs=("dCRAB", "dCRAB", "DirectSearch"), maxe=(20, 120)):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe, fmt=False))
    a = cfg["algorithm_settings"]
    # seconds, minutes or hours per evaluation
    scale = draw(st.sampled_from([1, 1, 1, 60, 1500]))
    ticks = [t * scale for t in draw(st.lists(TICKS, min_size=1, max_size=8))]
    mean = max(sum(ticks) / len(ticks) / 60.0, 0.1)
    total = draw(st.booleans()) or "dsm_settings" not in a

    def limit(n):
        return max(1, round(4 * mean * n)) / 4.0
    if total:
        a["total_time_lim"] = limit(draw(st.integers(1, 70)))
    if "dsm_settings" in a:
        sc = a["dsm_settings"]["stopping_criteria"]
        sc["xatol"], sc["fatol"] = -1.0, -1.0
        if draw(st.integers(0, 2)):
            sc["time_lim"] = limit(draw(st.integers(1, 40)))
        if draw(st.booleans()):
            sc.pop("max_eval", None)
        elif draw(st.booleans()):
            sc["max_eval"] = draw(st.integers(20, 60))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True)), "ticks": ticks,
            "pause": draw(st.sampled_from([0, 0, 45, 600, 4000, 100000]))}


def timed_run(case):
    clock = sut.Clock()
    start = {}

    def attach(r):
        runs.attach_si(r)
        clock.advance(case["pause"])
        start["t"] = clock.t
    r = runs.run(case["cfg"], case["obj"], clock=clock, ticks=case["ticks"], attach=attach)
    for e in r.evals:
        e["t"] -= start["t"]
        e["end"] = e["t"] + case["ticks"][(e["k"] - 1) % len(case["ticks"])]
    return r


def check(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    with sut.scratch():
        r = timed_run(case)
        n, total = len(r.evals), a["max_eval_total"]
        lim = a.get("total_time_lim")
        if lim is not None:
            late = [e for e in r.evals if e["t"] / 60.0 >= lim]
            ctx.expect(not late, "late-evaluation", lambda: "evaluation %d started %s min after the start, limit %s min" % (
                late[0]["k"], late[0]["t"] / 60.0, lim))
        over = lim is not None and r.evals[-1]["end"] / 60.0 >= lim
        stopped = over or n >= total
        segs = runs.segments(r.evals)
        if "dsm_settings" in a:
            dim, nsi = gen.dims(cfg), a.get("super_iteration_number", 1)
            sc = a["dsm_settings"]["stopping_criteria"]
            per, tl = sc.get("max_eval"), sc.get("time_lim")
            for i, s in enumerate(segs):
                ends = flow.iteration_ends([e["F"] for e in s], dim, a["dsm_settings"]["general_settings"])
                first = [c for c in ends if (per is not None and c >= per) or
                         (tl is not None and (s[c - 1]["end"] - s[0]["t"]) / 60.0 >= tl)]
                where = "search %d (%d evaluations, %s s each, limit %s min, max_eval %s, ends %s)" % (
                    i + 1, len(s), case["ticks"], tl, per, ends[:12])
                if i == len(segs) - 1 and stopped:
                    ctx.expect(not first or first[0] == len(s), "search-late", lambda: where + " went on after %d" % first[0])
                    continue
                ctx.expect(bool(first), "search-stopped-early", where + " ended without a reason")
                ctx.expect(first[0] == len(s), "search-end", where + " should have ended after %d" % first[0])
                if tl is not None and (s[-1]["end"] - s[0]["t"]) / 60.0 >= tl:
                    ctx.label("search time limit")
            if not stopped:
                ctx.expect(len(segs) == nsi, "run-stopped-early", "the run ended after %d of %d super-iterations" % (
                    len(segs), nsi))
        elif not stopped:
            free = copy.deepcopy(case)
            free["cfg"]["algorithm_settings"].pop("total_time_lim")
            with sut.scratch():
                r2 = timed_run(free)
            ctx.expect(len(r2.evals) == n, "run-stopped-early", "%d evaluations, %d without a time limit (%s s of %s min "
                       "used)" % (n, len(r2.evals), r.evals[-1]["end"], lim))
        runs.labels(ctx, cfg, r)
        ctx.label("total time limit" if over else "budget" if n >= total else "completed")
        ctx.nt(over or len(segs) > 1)


FAMILIES = [Family("gradient-free", strategy, check, 960, 12000,
                   rule="the total limit was reached, or there was more than one search"),
            Family("grape", lambda: strategy(("GRAPE",), (20, 60)), check, 160, 3000, rule="the total limit was reached"),
            Family("ad", lambda: strategy(("AD",), (4, 8)), check, 24, 400, rule="the total limit was reached")]
