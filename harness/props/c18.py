"""C18: Nelder-Mead against SciPy's (unit level) and against a reference replay (inside runs)."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from .. import flow, gen, open_space, runs, sut
from ..engine import Family
from quocslib.gradientfreemethods.NelderMead import NelderMead


@st.composite
def f_spec(draw):
    kind = draw(st.sampled_from(["quad", "rosen", "abs", "trig", "script", "script", "step"]))
    s = {"kind": kind, "c": draw(st.lists(gen.fl(-2, 2), min_size=1, max_size=4))}
    if kind == "script":
        s["vals"] = draw(st.lists(st.one_of(st.integers(-3, 3).map(float), gen.fl(-3, 3)), min_size=1, max_size=60))
    return s


def f_value(s, x, k):
    kind = s["kind"]
    if kind == "script":
        return s["vals"][k % len(s["vals"])]
    c = np.array([s["c"][i % len(s["c"])] for i in range(len(x))])
    w = 1.0 + np.arange(len(x))
    if kind == "quad":
        return float(np.sum(w * (x - c) ** 2))
    if kind == "rosen":
        return float(np.sum((1 - x) ** 2) + 10 * np.sum((x[1:] - x[:-1] ** 2) ** 2))
    if kind == "abs":
        return float(np.sum(np.abs(x - c)) + np.max(np.abs(x)))
    if kind == "step":
        return float(np.sum(np.floor(2 * np.abs(x - c))))
    return float(np.sum(np.cos(3 * x) + 0.1 * (x - c) ** 2))


class Recorder:
    def __init__(self, spec, cap=5000):
        self.spec, self.x, self.f, self.cap = spec, [], [], cap

    def __call__(self, x, *rest):
        v = f_value(self.spec, np.array(x, float), len(self.f))
        self.x.append(np.array(x, float))
        self.f.append(v)
        return v


@st.composite
def unit_strategy(draw):
    n = draw(st.integers(1, 7))
    x0 = draw(st.lists(st.one_of(gen.fl(-3, 3), st.just(0.0)), min_size=n, max_size=n))
    simplex = None
    if draw(st.integers(0, 3)):
        simplex = [draw(st.lists(gen.fl(-3, 3), min_size=n, max_size=n)) for _ in range(n + 1)]
    return {"x0": x0, "simplex": simplex, "f": draw(f_spec()), "adaptive": draw(st.booleans()),
            "max_eval": draw(st.integers(1, 150))}


def unit(case, ctx):
    n = len(case["x0"])
    x0 = np.array(case["x0"], float)
    simplex = None if case["simplex"] is None else np.array(case["simplex"], float)
    keep = x0.copy(), None if simplex is None else simplex.copy()
    rec = Recorder(case["f"])
    with sut.quiet():
        nm = NelderMead({"is_adaptive": case["adaptive"]}, {"max_eval": case["max_eval"], "xatol": -1.0, "fatol": -1.0},
                        callback=lambda: True)
        res = nm.run_dsm(rec, x0, initial_simplex=simplex)
        m = len(rec.f)
        # the reference is fed with the observed values, so that rounding differences cannot change its decisions
        ref = Recorder({"kind": "script", "vals": list(rec.f)})
        optimize.minimize(ref, keep[0].copy(), method="Nelder-Mead",
                          options={"initial_simplex": keep[1], "adaptive": case["adaptive"], "maxfev": m,
                                   "maxiter": 10 ** 9, "xatol": -1.0, "fatol": -1.0})
    ctx.expect(np.array_equal(x0, keep[0]) and (simplex is None or np.array_equal(simplex, keep[1])), "inputs-modified",
               "the start point or simplex was modified")
    scale = 1 + max(float(np.abs(x).max()) for x in rec.x)
    for i in range(min(m, len(ref.x))):
        ctx.expect(np.abs(rec.x[i] - ref.x[i]).max() <= 1e-9 * scale, "point", lambda: "evaluation %d of the %s search is at "
                   "%s, the reference evaluates %s (values so far %s)" % (
                       i + 1, "adaptive" if case["adaptive"] else "standard", rec.x[i], ref.x[i], rec.f[max(0, i - 6):i]))
    ctx.expect(len(ref.x) >= m, "number", "%d evaluations, the reference makes %d" % (m, len(ref.x)))
    ctx.expect(res["NfunevalsUsed"] == m, "nfev", "reported %r evaluations, made %d" % (res["NfunevalsUsed"], m))
    fb = min(rec.f)
    ctx.expect(res["F_min_val"] == fb, "best-value", "returned value %r, best evaluated %r" % (res["F_min_val"], fb))
    X = np.asarray(res["X_opti_vec"], float)
    ctx.expect(any(f == fb and np.abs(x - X).max() <= 1e-9 * scale for x, f in zip(rec.x, rec.f)), "best-vertex",
               lambda: "the returned point %s has not the best value %r" % (X, fb))
    ends = flow.nm_iteration_ends(rec.f, n)
    first = [c for c in ends if c >= case["max_eval"]]
    ctx.expect(bool(first) and first[0] == m, "end", "ended after %d evaluations, max_eval %d, iteration ends %s" % (
        m, case["max_eval"], ends[-5:]))
    d = np.diff([n + 1] + ends)
    ctx.label("adaptive" if case["adaptive"] else "standard", case["f"]["kind"],
              "shrink" if np.any(d >= n + 2) and n > 1 else "no shrink", "default simplex" if simplex is None else "simplex")
    ctx.nt(len(ends) >= 3)


@st.composite
def run_strategy(draw):
    c = draw(open_space.cfg(dsm=("NelderMead",), max_dim=5, max_eval_total=(20, 200)))
    a = c["algorithm_settings"]
    if draw(st.booleans()):
        a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(10, 100))
    return {"cfg": c, "obj": draw(gen.objective_spec(table=True))}


def in_run(case, ctx):
    cfg = case["cfg"]
    n = open_space.dim(cfg)
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    g = cfg["algorithm_settings"]["dsm_settings"]["general_settings"]
    for seg in runs.segments(r.evals):
        if len(seg) < n + 1:
            continue
        X = np.array([open_space.x_of(e) for e in seg])
        pts, ends = flow.nm_replay(X[:n + 1], [e["F"] for e in seg], g.get("is_adaptive", False))
        s = 1 + np.abs(X).max()
        for i, p in enumerate(pts):
            ctx.expect(np.abs(p - X[i]).max() <= 1e-7 * s, "run-point", lambda: "search %d: evaluation %d is at %s, the "
                       "reference evaluates %s" % (seg[0]["si"], i + 1, X[i], p))
        ctx.nt(len(ends) > 3)
    runs.labels(ctx, cfg, r)
    ctx.label("adaptive" if g.get("is_adaptive") else "standard")


FAMILIES = [Family("unit", unit_strategy, unit, 3200, 50000, rule="at least three complete iterations"),
            Family("run", run_strategy, in_run, 480, 6000, rule="a search with at least three complete iterations")]
