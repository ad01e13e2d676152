"""C05: evaluation budgets and super-iteration counts."""
from hypothesis import strategies as st

from .. import flow, gen, runs, sut
from ..engine import Family


@st.composite
def gf_strategy(draw):
    cfg = draw(runs.any_cfg(max_eval_total=(1, 90), max_si=5, other=True))
    a = cfg["algorithm_settings"]
    sc = a["dsm_settings"]["stopping_criteria"]
    sc["xatol"], sc["fatol"] = -1.0, -1.0
    k = draw(st.sampled_from(["small", "mid", "none"]))
    sc.pop("max_eval", None)
    if k != "none":
        sc["max_eval"] = draw(st.integers(1, 8) if k == "small" else st.integers(5, 60))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def gradient_free(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    dim = gen.dims(cfg)
    nsi = a.get("super_iteration_number", 1)
    total = a["max_eval_total"]
    per = a["dsm_settings"]["stopping_criteria"].get("max_eval")
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
        n = len(r.evals)
        ctx.expect(n <= total, "total-exceeded", "%d evaluations, allowed %d" % (n, total))
        segs = runs.segments(r.evals)
        ctx.expect([s[0]["si"] for s in segs] == list(range(1, len(segs) + 1)), "si-order",
                   "super-iterations in order %s" % [s[0]["si"] for s in segs])
        ctx.expect(len(segs) <= nsi, "si-exceeded", "%d super-iterations, configured %d" % (len(segs), nsi))
        for i, s in enumerate(segs):
            ends = flow.iteration_ends([e["F"] for e in s], dim, a["dsm_settings"]["general_settings"])
            first = [c for c in ends if per is not None and c >= per]
            stopped_by_total = i == len(segs) - 1 and n == total
            if stopped_by_total:
                ctx.expect(not first or first[0] == len(s), "search-late", "search %d made %d evaluations, its limit %s "
                           "was reached at the iteration end after %s" % (i + 1, len(s), per, first[:1]))
            else:
                ctx.expect(bool(first) and first[0] == len(s), "search-end", "search %d ended after %d evaluations with a "
                           "limit of %s; iteration ends at %s (run %d of %d evaluations)" % (
                               i + 1, len(s), per, ends[-8:], n, total))
        if n < total:
            ctx.expect(len(segs) == nsi, "stopped-early", "the run ended after %d of %d super-iterations and %d of %d "
                       "evaluations without a reason" % (len(segs), nsi, n, total))
        if a["algorithm_name"] == "dCRAB":
            ctx.expect(r.final["total number of function evaluations"] == n, "reported-number",
                       "reported %r evaluations, made %d" % (r.final["total number of function evaluations"], n))
            ctx.expect(len(r.final["dcrab_para_list"]) <= nsi, "si-reported", "%d super-iterations in the results" %
                       len(r.final["dcrab_para_list"]))
        runs.labels(ctx, cfg, r)
        ctx.label("total" if n == total else "all SIs", "%d SIs" % len(segs))
        ctx.nt(n > dim + 1)


@st.composite
def long_strategy(draw):
    """A long run of a small problem: budgets in the thousands."""
    case = draw(gf_strategy())
    a = case["cfg"]["algorithm_settings"]
    a["max_eval_total"] = draw(st.integers(1500, 4000))
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(300, 4000))
    if a["algorithm_name"] == "dCRAB":
        a["super_iteration_number"] = draw(st.integers(1, 9))
    return case


@st.composite
def feature_strategy(draw):
    case = draw(gf_strategy())
    case["cfg"].pop("_other", None)
    extra, what = draw(runs.features(case["cfg"], ("reeval", "drift", "periodic")))
    return {**case, **extra, "what": sorted(what)}


def with_features(case, ctx):
    """Re-evaluations and drift compensation count as evaluations."""
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    nsi, total = a.get("super_iteration_number", 1), a["max_eval_total"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si, **runs.extra_kw(case))
    n, segs = len(r.evals), runs.segments(r.evals)
    ctx.expect(n <= total, "total-exceeded", "%d evaluations, allowed %d (%s)" % (n, total, case["what"]))
    ctx.expect([s[0]["si"] for s in segs] == list(range(1, len(segs) + 1)), "si-order",
               "super-iterations in order %s" % [s[0]["si"] for s in segs])
    ctx.expect(len(segs) <= nsi, "si-exceeded", "%d super-iterations, configured %d" % (len(segs), nsi))
    if n < total:
        ctx.expect(len(segs) == nsi and a["dsm_settings"]["stopping_criteria"].get("max_eval") is not None, "stopped-early",
                   "the run ended after %d of %d super-iterations and %d of %d evaluations without a reason" % (
                       len(segs), nsi, n, total))
    if a["algorithm_name"] == "dCRAB":
        ctx.expect(r.final["total number of function evaluations"] == n, "reported-number",
                   "reported %r evaluations, made %d" % (r.final["total number of function evaluations"], n))
    runs.labels(ctx, cfg, r)
    ctx.label("total" if n == total else "all SIs", *case["what"])
    ctx.nt(n > gen.dims(cfg) + 1)


@st.composite
def grad_strategy(draw, algs, maxe):
    cfg = draw(runs.any_cfg(algs=algs, max_eval_total=maxe))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def gradient(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
        n = len(r.evals)
        ctx.expect(n <= a["max_eval_total"], "total-exceeded", "%d evaluations, allowed %d" % (n, a["max_eval_total"]))
        rep = r.final.get("nfev", r.final.get("total number of function evaluations"))
        ctx.expect(rep == n, "reported-number", "reported %r evaluations, made %d" % (rep, n))
        ctx.expect(len(runs.segments(r.evals)) <= a.get("super_iteration_number", 1), "si-exceeded",
                   "%d super-iterations" % len(runs.segments(r.evals)))
        runs.labels(ctx, cfg, r)
        ctx.nt(n == a["max_eval_total"])


FAMILIES = [Family("gradient-free", gf_strategy, gradient_free, 1600, 20000,
                   rule="the run got beyond the start simplex"),
            Family("long", long_strategy, gradient_free, 24, 240, rule="the run got beyond the start simplex"),
            Family("features", feature_strategy, with_features, 480, 6000, rule="the run got beyond the start simplex"),
            Family("grape", lambda: grad_strategy(("GRAPE",), (1, 30)), gradient, 320, 4000,
                   rule="the total limit was reached"),
            Family("ad", lambda: grad_strategy(("AD",), (1, 6)), gradient, 32, 600, rule="the total limit was reached")]
