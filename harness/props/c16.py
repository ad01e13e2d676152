"""C16: random super-parameters: stratified, redrawn, fixed during a super-iteration, and recorded."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import ctl, gen, runs, sut
from .. import pulsemodel as pm
from ..engine import Family


def chopped(cfg):
    return [p for p in cfg["pulses"] if p["basis"]["basis_name"] in pm.CHOPPED]


def interval(p):
    d = p["basis"]["random_super_parameter_distribution"]
    return d["lower_limit"], d["upper_limit"], p["basis"]["basis_vector_number"]


def strata(ctx, cfg, sp, where):
    """Check the strata and return the relative positions inside them."""
    out = []
    ctx.expect(len(sp) == len(chopped(cfg)), "number", "%s: %d super-parameter vectors for %d randomised pulses" % (
        where, len(sp), len(chopped(cfg))))
    for p, w in zip(chopped(cfg), sp):
        a, b, k = interval(p)
        w = np.asarray(w, float)
        ctx.expect(w.shape == (k,), "size", "%s: %d super-parameters for %d vectors" % (where, w.size, k))
        u = (w - a) / ((b - a) / k) - np.arange(k)
        ctx.expect(np.all(u >= -1e-9) and np.all(u <= 1 + 1e-9), "stratum", lambda: (
            "%s: super-parameters %s are not one in each stratum of [%s, %s]" % (where, w, a, b)))
        out.append(u)
    return out


@st.composite
def draw_strategy(draw):
    cfg = draw(ctl.controls_cfg(npulses=(1, 3), maxk=6))
    n = gen.dims(cfg)
    return {"cfg": cfg, "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 31))), "gseed": draw(st.integers(0, 2 ** 31)),
            "xs": draw(st.lists(ctl.vector(n), min_size=1, max_size=3)), "rounds": draw(st.integers(2, 30))}


def draws(case, ctx):
    cfg = case["cfg"]
    if not chopped(cfg):
        return
    pos, last, before = [], None, None
    with sut.quiet(case["gseed"]):
        con = ctl.make(cfg, case["seed"])
        for i in range(case["rounds"]):
            con.select_basis()
            sp = [np.array(w, float) for w in con.get_random_super_parameter()]
            now = np.concatenate(strata(ctx, cfg, sp, "draw %d" % i))
            pos.append(now)
            # no draw can be told from the one before it, nor one entry from another
            others = [("those before", before)] if before is not None else []
            others += [("each other", np.roll(now, s)) for s in range(1, now.size // 2 + 1)]
            for what, x in others:
                rel = np.minimum(np.abs(now - x), np.abs(now + x - 1))
                ctx.expect(np.all(rel > 1e-12) or now.size == 2 and what == "each other" and abs(now[0] - 0.5) < 1e-12,
                           "determined", lambda: "draw %d: the positions inside the strata, %s, follow from %s: %s" % (
                               i, now, what, x))
            before = now
            if last is not None:
                for a, b in zip(sp, last):
                    ctx.expect(np.all(a != b), "not-redrawn", lambda: "draw %d repeats super-parameters %s" % (i, a))
            last = sp
            for x in case["xs"]:
                con.get_controls_lists(np.array(x, float))
                con.get_mean_value(), con.get_sigma_variation()
            now = con.get_random_super_parameter()
            ctx.expect(all(np.array_equal(a, b) for a, b in zip(now, last)), "not-fixed", "the super-parameters changed "
                       "without a new selection")
        con.update_base_controls(np.array(case["xs"][0], float))
        ctx.expect(all(np.array_equal(a, b) for a, b in zip(con.get_random_super_parameter(), last)), "not-fixed",
                   "updating the base changed the super-parameters")
    u = np.concatenate(pos)
    if u.size >= 20:
        pv = stats.kstest(u, "uniform").pvalue
        ctx.expect(pv > 1e-9, "not-uniform", lambda: "the %d positions inside the strata are not uniform (p = %.2g)" % (
            u.size, pv))
        # different vectors and rounds are independent of each other
        if u.size >= 40:
            c = np.corrcoef(u[:-1], u[1:])[0, 1]
            ctx.expect(abs(c) < 6.2 / np.sqrt(u.size), "correlated", "successive positions are correlated (%.3f)" % c)
    ctx.label(*[p["basis"]["basis_name"] for p in chopped(cfg)])
    ctx.label("seeded" if case["seed"] is not None else "global generator")
    ctx.nt(u.size >= 20)


@st.composite
def record_strategy(draw):
    cfg = draw(gen.dcrab_cfg(max_si=5, max_eval_total=(20, 150), maxbins=10, maxk=3))
    a = cfg["algorithm_settings"]
    a["super_iteration_number"] = draw(st.integers(2, 5))
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 40))
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def record(case, ctx):
    cfg = case["cfg"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    sps, paras = r.final["dcrab_freq_list"], r.final["dcrab_para_list"]
    segs = runs.segments(r.evals)
    # a super-iteration that was stopped before its first evaluation may be listed too (with an empty update)
    ctx.expect(len(segs) <= len(sps) == len(paras) <= len(segs) + 1, "si-number", "%d and %d entries in the results for %d super-iterations"
               % (len(sps), len(paras), len(segs)))
    for s in range(len(sps)):
        strata(ctx, cfg, sps[s], "super-iteration %d" % (s + 1))
        for t in range(s):
            for a, b in zip(sps[s], sps[t]):
                ctx.expect(not np.any(np.asarray(a) == np.asarray(b)), "not-redrawn", "super-iterations %d and %d list "
                           "the same super-parameters" % (t + 1, s + 1))
    model = ctl.Model(cfg)
    improved = 0
    for s in range(len(sps)):
        seg = segs[min(s, len(segs) - 1)]
        model.set_w(sps[s])
        x = np.array(paras[s], float)
        ctx.expect(x.shape == (model.n(),), "vector-size", "%d control parameters recorded, %d exist" % (x.size, model.n()))
        pulses, grids, params = model.get(x)
        upto = seg[-1]["k"]
        best = runs.best_of(r.evals, upto)
        improved += best["si"] == s + 1 and best["k"] > 1
        for i, p in enumerate(cfg["pulses"]):
            ctx.expect(sut.close(pulses[i], best["pulses"][i], 1e-7, 1e-7), "rebuild-pulse", lambda: (
                "rebuilding super-iteration %d from the results gives %s = %s, the best evaluation so far (%d) had %s" % (
                    s + 1, p["pulse_name"], pulses[i][:5], best["k"], best["pulses"][i][:5])))
        ctx.expect(sut.close(np.array(params), np.array(best["parameters"]), 1e-9, 1e-9), "rebuild-parameter", lambda: (
            "rebuilding super-iteration %d gives parameters %s instead of %s" % (s + 1, params, best["parameters"])))
        model.update_base(x)
    runs.labels(ctx, cfg, r)
    ctx.label("%d SIs" % len(segs))
    ctx.nt(improved > 1)


@st.composite
def span_strategy(draw):
    cfg = draw(gen.dcrab_cfg(max_si=3, max_eval_total=(20, 100), bases=["Fourier", "Sinc", "Sigmoid"], maxbins=20,
                             minbins=14, maxk=3, guess=True, scaling=False, shapings=None, shrink=False))
    a = cfg["algorithm_settings"]
    a["super_iteration_number"] = draw(st.integers(1, 3))
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(5, 40))
    for p in cfg["pulses"]:
        # nothing is clipped, not even a guess that grows with the time
        w = 1e4 * max(1.0, p["amplitude_variation"]) * (1.0 + max(t["initial_value"] for t in cfg["times"]))
        p["upper_limit"], p["lower_limit"] = w, -w
    return {"cfg": cfg, "obj": draw(gen.objective_spec(table=True))}


def span(case, ctx):
    """During a super-iteration every pulse differs from its first one by a combination of the recorded basis functions."""
    cfg = case["cfg"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    segs = runs.segments(r.evals)
    for s, seg in enumerate(segs):
        w = dict(zip([id(p) for p in chopped(cfg)], r.final["dcrab_freq_list"][s]))
        for i, p in enumerate(cfg["pulses"]):
            T, n = pm.final_time(cfg, p), pm.n_coeff(p)
            A = np.array([pm.update(p, np.eye(n)[j], w[id(p)], T) for j in range(n)]).T
            D = np.array([e["pulses"][i] - seg[0]["pulses"][i] for e in seg[1:]]).T
            if D.size == 0:
                continue
            c, *_ = np.linalg.lstsq(A, D, rcond=1e-12)
            res = np.abs(A @ c - D).max(axis=0)
            tol = 1e-6 * (1 + np.abs(D).max(axis=0)) * (1 + np.abs(A).max())
            bad = np.nonzero(res > tol)[0]
            ctx.expect(bad.size == 0, "left-basis", lambda: "evaluation %d of super-iteration %d moves %s out of the "
                       "span of its recorded basis (by %.3g)" % (seg[1 + bad[0]]["k"], s + 1, p["pulse_name"],
                                                                 res[bad[0]]))
    runs.labels(ctx, cfg, r)
    ctx.nt(max(len(s) for s in segs) > 3)


FAMILIES = [Family("draws", draw_strategy, draws, 640, 8000, rule="at least 20 values drawn"),
            Family("record", record_strategy, record, 640, 8000, rule="two super-iterations found a new best"),
            Family("span", span_strategy, span, 320, 4000, rule="more than three evaluations in a super-iteration")]
