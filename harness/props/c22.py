"""C22: re-evaluation, against a reference model of the whole run (probabilities, repetitions, records, feedback)."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from .. import flow, gen, open_space, runs, sut
from ..engine import Family
from .c20 import dyadic
from .c21 import drifting


@st.composite
def strategy(draw, algs=("dCRAB",)):
    c = draw(open_space.cfg(algs=algs, dsm=("NelderMead", "NelderMead", "CMAES"), max_dim=3,
                            max_eval_total=(15, 150), max_si=3))
    a = c["algorithm_settings"]
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(3, 45))
    thr = st.one_of(st.sampled_from([0.1, 0.25, 0.3, 0.33, 0.5, 0.5, 0.51, 0.501, 0.6, 0.75, 0.9, 0.99]), gen.fl(0.01, 0.99))
    a["re_evaluation"] = {}
    if draw(st.integers(0, 5)):
        a["re_evaluation"]["re_evaluation_steps"] = draw(st.lists(thr, min_size=1, max_size=5))
    std = None
    if draw(st.integers(0, 5)):
        std = draw(st.lists(st.one_of(gen.fl(0.0, 0.3), gen.fl(0.01, 3.0), st.sampled_from([0.0, 0.5, 1.0, None])), min_size=1,
                            max_size=8))
        if draw(st.integers(0, 3)) == 0:
            # measurements that are far more precise than the values differ
            f = draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-9]))
            std = [x and x * f for x in std]
    if draw(st.integers(0, 4)) == 0:
        c["dump_format"] = "json"
    obj = draw(drifting())
    if draw(st.integers(0, 5)) == 0:
        # averages that tie with the record: the probability is exactly one half
        a["re_evaluation"]["re_evaluation_steps"] = draw(st.lists(st.sampled_from([0.25, 0.4, 0.5]), max_size=2)) + [0.5]
        obj = {"kind": "table", "vals": draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 2.0]), min_size=1, max_size=6))}
    return {"cfg": c, "obj": obj, "std": std}


def check(case, ctx):
    cfg = case["cfg"]
    a = cfg["algorithm_settings"]
    steps = a["re_evaluation"].get("re_evaluation_steps", [0.3, 0.5, 0.501])
    g, sc = a["dsm_settings"]["general_settings"], a["dsm_settings"]["stopping_criteria"]
    dim, total = open_space.dim(cfg), a["max_eval_total"]
    with sut.scratch():
        r = runs.run(cfg, case["obj"], std=case["std"], attach=runs.attach_si, snapshot=True)
    E, n = r.evals, len(r.evals)
    X = [open_space.x_of(e) for e in E]
    span = 1 + max(float(np.abs(x).max()) for x in X)
    over = n >= total
    rec = {"mu": 1e10, "s": 0.0, "x": None, "k": None}
    pos, si = 0, 0
    history = []

    class Done(Exception):
        pass

    class Unclear(Exception):
        pass

    def sigma(e):
        return e["std"] if case["std"] is not None else 1.0

    def near(x, y):
        return np.abs(np.asarray(x) - np.asarray(y)).max() <= 1e-7 * span

    def check_file(f, where):
        if rec["x"] is None:
            ctx.expect(f is None, "file-without-record", "%s: a best-controls file exists before the first record" % where)
            return
        v = open_space.file_vec(cfg, f)
        ctx.expect(isinstance(f, dict) and np.abs(v - rec["x"]).max() <= 1e-12 * span, "record-file",
                   lambda: "%s: the file holds %s, the record (evaluation %d, average %r) is %s" % (
                       where, v, rec["k"], rec["mu"], rec["x"]))
        ctx.expect(abs(float(np.asarray(f["FoM"])) - rec["mu"]) <= 1e-9 * (1 + abs(rec["mu"])), "file-value", lambda: (
            "%s: the file gives the record the value %s, the average is %r" % (where, f["FoM"], rec["mu"])))

    def take(what, x=None):
        nonlocal pos
        if pos >= n:
            ctx.expect(over, "missing-evaluation", "the run ended after %d of %d evaluations, %s was due (super-iteration "
                       "%d)" % (n, total, what, si))
            raise Done
        e = E[pos]
        pos += 1
        ctx.expect(e["si"] == si, "super-iteration", lambda: "evaluation %d belongs to super-iteration %d; %s of "
                   "super-iteration %d was due" % (e["k"], e["si"], what, si))
        if x is not None:
            ctx.expect(near(X[e["k"] - 1], x), "point", lambda: "evaluation %d (super-iteration %d) is at %s; %s, at %s, was "
                       "due (%s)" % (e["k"], si, X[e["k"] - 1], what, x, log[-1:]))
        check_file(e["snapshot"], "before evaluation %d" % e["k"])
        return e

    log = []

    def prob(vals, sig):
        v, s = np.array(vals), np.array(sig)
        mu, sg = float(v.sum() / len(v)), float(s.sum() / len(s))
        comb = float(np.sqrt(sg ** 2 + rec["s"] ** 2))
        if 1e-15 < comb < 1e-13:
            raise Unclear
        if comb < 1e-14:
            comb = 1.0
        return mu, sg, float(norm.cdf((rec["mu"] - mu) / comb)), dyadic(list(vals) + [rec["mu"]]) and mu == rec["mu"], \
            1e-9 + 2e-15 * (1 + abs(mu) + abs(rec["mu"]) * (rec["x"] is not None)) / comb

    def candidate(what, x=None):
        """All measurements of one candidate; returns the value the search has to be given."""
        e = take(what, x)
        first = e["k"] == 1
        st_ = [0.5] if first else steps
        vals, sig = [e["F"]], [sigma(e)]
        history.append(e["F"])
        x = X[e["k"] - 1]
        for i, p in enumerate(st_):
            mu, sg, pr, exact, band = prob(vals, sig)
            if abs(pr - p) < band and not exact:
                raise Unclear
            if pr < p:
                log.append("candidate of evaluation %d: measured %d times, probability %.6g below %g" % (e["k"], len(vals), pr, p))
                stats["rejected"] += 1
                return mu
            log.append("candidate of evaluation %d: measured %d times, probability %.6g at least %g" % (e["k"], len(vals), pr, p))
            e2 = take("measurement %d of the candidate" % (len(vals) + 1), x)
            vals.append(e2["F"])
            sig.append(sigma(e2))
            history.append(sum(vals) / len(vals))
            stats["repeated"] += 1
        mu, sg, pr, exact, band = prob(vals, sig)
        if abs(pr - st_[-1]) < band and not exact:
            raise Unclear
        if pr > st_[-1]:
            log.append("candidate of evaluation %d promoted" % e["k"])
            rec.update(mu=mu, s=sg, x=X[E[pos - 1]["k"] - 1], k=E[pos - 1]["k"])
            stats["records"] += 1
        else:
            stats["denied"] += 1
        return mu

    stats = {"rejected": 0, "repeated": 0, "records": 0, "denied": 0}
    try:
        for si in range(1, a.get("super_iteration_number", 1) + 1):
            count = 0
            first = open_space.start(cfg) if si == 1 else rec["x"]
            if g["dsm_algorithm_name"] == "CMAES":
                P = flow.population(dim, g.get("population"))
                while count < sc["max_eval"]:
                    for _ in range(P):
                        if pos and pos < n and count:
                            ctx.expect(not np.array_equal(X[pos], X[pos - 1]), "repeated-without-reason", lambda: (
                                "evaluation %d measures the same point again (%s)" % (pos + 1, log[-1:])))
                        candidate("candidate %d of the search" % (count + 1), None if count else first)
                        count += 1
            else:
                # the points of the start simplex are known only once they are evaluated
                seen = []
                while len(seen) < dim + 1:
                    x = first if not seen else None
                    if x is None and pos < n:
                        ctx.expect(not np.array_equal(X[pos], seen[-1][0]), "repeated-without-reason", lambda: (
                            "evaluation %d measures the same point again (%s)" % (pos + 1, log[-1:])))
                    xx = X[pos] if pos < n else None
                    seen.append((xx, candidate("vertex %d of the start simplex" % (len(seen) + 1), x)))
                ref = flow.nm_steps(np.array([s[0] for s in seen]), g.get("is_adaptive", False))
                step = next(ref)
                while True:
                    if step[0] == "eval":
                        if count < dim + 1:
                            v = seen[count][1]
                        else:
                            v = candidate("candidate %d of the search" % (count + 1), step[1])
                        count += 1
                        step = ref.send(v)
                        continue
                    if count >= sc["max_eval"]:
                        break
                    step = next(ref)
    except Done:
        pass
    except Unclear:
        ctx.label("too close to a threshold")
        return
    else:
        ctx.expect(pos == n, "extra-evaluation", lambda: "%d evaluations, %d are accounted for; evaluation %d is at %s" % (
            n, pos, pos + 1, X[pos]))
    if rec["x"] is not None:
        check_file(r.file, "at the end")
        fom = r.sgn * r.final["Figure of merit"]
        ctx.expect(abs(fom - rec["mu"]) <= 1e-9 * (1 + abs(rec["mu"])), "record-value", "the reported figure of merit is %r, the "
                   "record's average is %r" % (fom, rec["mu"]))
        if "Std" in r.final or runs.alg_name(cfg) == "dCRAB":
            ctx.expect(abs(r.final["Std"] - rec["s"]) <= 1e-9 * (1 + rec["s"]), "record-std", "the reported uncertainty is %r, "
                       "the record's average is %r" % (r.final["Std"], rec["s"]))
        if "parameters" in r.final:
            ctx.expect(np.allclose(np.array(r.final["parameters"], float).ravel(), rec["x"], rtol=1e-12, atol=1e-12 * span),
                       "record-parameters", lambda: "the reported parameters are %s, the record was measured at %s" % (
                           r.final["parameters"], rec["x"]))
    H = [r.sgn * v for v in r.alg.FoM_list]
    ctx.expect(len(H) == n and np.allclose(H, history[:n], rtol=1e-9, atol=1e-9), "history", lambda: "the history of values is "
               "%s, the averages so far are %s" % (H[:8], history[:8]))
    runs.labels(ctx, cfg, r)
    ctx.label(*[k for k, v in stats.items() if v > 1])
    ctx.nt(stats["records"] > 1 and stats["rejected"] > 0)


FAMILIES = [Family("run", strategy, check, 1600, 20000, rule="at least two records and one rejected candidate"),
            Family("direct-search", lambda: strategy(("DirectSearch",)), check, 800, 10000,
                   rule="at least two records and one rejected candidate")]
