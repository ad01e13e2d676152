"""C19: CMA-ES sampling and adaptation, through a reference replay of the adaptation on the observed generations."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import cmaref, flow, gen, open_space, runs, sut
from ..engine import Family
from .c18 import Recorder, f_spec
from quocslib.gradientfreemethods.CMAES import CMAES
from quocslib.tools.randomgenerator import RandomNumberGenerator


@st.composite
def search_spec(draw, n, noscript=False):
    f = draw(f_spec())
    if noscript and f["kind"] == "script":
        f["kind"] = "trig"
    return {"x0": draw(st.lists(gen.fl(-3, 3), min_size=n, max_size=n)), "f": f,
            "sigma": draw(st.one_of(st.lists(gen.fl(0.05, 3.0), min_size=n, max_size=n), st.none() if not noscript else
                                    st.lists(gen.fl(0.5, 2.0), min_size=n, max_size=n)))}


def search(spec, pop, max_eval, gseed, seed):
    n = len(spec["x0"])
    rec = Recorder(spec["f"])
    with sut.quiet(gseed):
        cma = CMAES({"population": pop} if pop is not None else {}, {"max_eval": max_eval, "fatol": -1.0},
                    callback=lambda: True)
        x0 = np.array(spec["x0"], float)
        sv = None if spec["sigma"] is None else np.array(spec["sigma"], float)
        kw = {} if seed is None else {"rng": RandomNumberGenerator(seed)}
        res = cma.run_dsm(rec, x0, sigma_v=sv, **kw)
    return rec, res, (0.3 * np.ones(n) if sv is None else np.array(spec["sigma"], float)), \
        np.array_equal(x0, spec["x0"]) and (sv is None or np.array_equal(sv, spec["sigma"]))


def structure(ctx, spec, rec, res, pop, max_eval):
    n, P = len(spec["x0"]), flow.population(len(spec["x0"]), pop)
    m = len(rec.f)
    ctx.expect(np.array_equal(rec.x[0], np.array(spec["x0"], float)), "start", "the first evaluation is at %s instead of the "
               "start point %s" % (rec.x[0], spec["x0"]))
    want = -(-max_eval // P) * P
    ctx.expect(m == want, "generations", "%d evaluations with a limit of %d and generations of %d" % (m, max_eval, P))
    ctx.expect(res["NfunevalsUsed"] == m, "nfev", "reported %r evaluations, made %d" % (res["NfunevalsUsed"], m))
    last = range(m - P, m)
    fb = min(rec.f[i] for i in last)
    ctx.expect(res["F_min_val"] == fb, "best-value", "returned %r, best of the last generation %r" % (res["F_min_val"], fb))
    X = np.asarray(res["X_opti_vec"], float)
    ctx.expect(any(rec.f[i] == fb and np.allclose(rec.x[i], X, rtol=1e-12, atol=1e-12) for i in last), "best-point",
               lambda: "the returned point %s is not the best of the last generation" % X)


@st.composite
def stream_strategy(draw):
    n = draw(st.integers(1, 6))
    pop = draw(st.one_of(st.none(), st.integers(2, 14), st.integers(4, 14), st.integers(15, 90)))
    P = flow.population(n, pop)
    return {"pop": pop, "max_eval": draw(st.integers(1, (12 if P < 15 else 5) * P)), "gseed": draw(st.integers(0, 2 ** 31)),
            "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 31))),
            "a": draw(search_spec(n)), "b": draw(search_spec(n))}


def stream(case, ctx):
    """Two searches fed by the same random stream: the reference adaptation must turn both into the same standard normal
    vectors (up to a rotation), whatever the objectives, start points and scales."""
    norms = []
    for key in "ab":
        spec = case[key]
        rec, res, sv, intact = search(spec, case["pop"], case["max_eval"], case["gseed"], case["seed"])
        ctx.expect(intact, "inputs-modified", "the start point or the scales were modified")
        structure(ctx, spec, rec, res, case["pop"], case["max_eval"])
        z, pop = cmaref.whiten(rec.x, rec.f, sv, case["pop"])
        norms.append([(g, float(np.linalg.norm(v))) for g, v in z])
    k = min(map(len, norms))
    for i in range(k):
        (g, a), (_, b) = norms[0][i], norms[1][i]
        ctx.expect(abs(a - b) <= 1e-4 * (1e-2 + a), "adaptation", lambda: "sample %d (generation %d) lies %.8g standard "
                   "deviations from the mean of the reference distribution in one search and %.8g in the other, from "
                   "the same random numbers" % (i + 2, g + 1, a, b))
    ctx.label("n=%d" % len(case["a"]["x0"]), "default population" if case["pop"] is None else "population",
              "seeded" if case["seed"] is not None else "global generator", case["a"]["f"]["kind"])
    ctx.nt(k > 0 and norms[0][k - 1][0] >= 3)


@st.composite
def normal_strategy(draw):
    n = draw(st.integers(1, 5))
    pop = draw(st.one_of(st.none(), st.integers(2, 12)))
    return {"pop": pop, "max_eval": draw(st.integers(20, 60)) * flow.population(n, pop), "seed": draw(st.one_of(
        st.none(), st.integers(0, 2 ** 31))), "gseed": draw(st.integers(0, 2 ** 31)),
        "searches": [draw(search_spec(n, True)) for _ in range(draw(st.integers(1, 3)))]}


def normal(case, ctx):
    """The whitened samples are independent standard normal vectors."""
    Z = []
    for i, spec in enumerate(case["searches"]):
        rec, res, sv, _ = search(spec, case["pop"], case["max_eval"], case["gseed"] + i,
                                 None if case["seed"] is None else case["seed"] + i)
        z, _ = cmaref.whiten(rec.x, rec.f, sv, case["pop"])
        Z += [v for _, v in z]
    Z = np.array(Z)
    M, n = Z.shape
    if M < 60:
        return
    r2 = np.sum(Z ** 2, axis=1)
    tests = {"mean": 2 * stats.norm.sf(np.max(np.abs(Z.mean(axis=0))) * np.sqrt(M)) * n,
             "norm": stats.kstest(r2, stats.chi2(n).cdf).pvalue,
             "spread": 2 * min(stats.chi2.sf(r2.sum(), M * n), stats.chi2.cdf(r2.sum(), M * n)),
             "normal": min(stats.kstest(Z[:, j], "norm").pvalue for j in range(n)) * n}
    lag = np.sum(Z[1:] * Z[:-1]) / np.sqrt((M - 1) * n)
    tests["independent"] = 2 * stats.norm.sf(abs(lag))
    if n > 1:
        c = [np.sum(Z[:, i] * Z[:, j]) / np.sqrt(M) for i in range(n) for j in range(i)]
        tests["uncorrelated"] = 2 * stats.norm.sf(np.max(np.abs(c))) * len(c)
    for name, p in tests.items():
        ctx.expect(p > 1e-9, "distribution-" + name, "test '%s' on %d whitened samples in %d dimensions: p = %.3g" % (
            name, M, n, p))
    ctx.label("n=%d" % n)
    ctx.nt(M >= 200)


@st.composite
def rank_strategy(draw):
    n = draw(st.integers(1, 5))
    pop = draw(st.one_of(st.none(), st.integers(2, 12)))
    return {"pop": pop, "max_eval": draw(st.integers(1, 15)) * flow.population(n, pop), "gseed": draw(st.integers(0, 2 ** 31)),
            "s": draw(search_spec(n)), "g": draw(st.sampled_from(["affine", "cube", "atan", "exp"]))}


class Monotone(Recorder):
    def __init__(self, spec, g):
        super().__init__(spec)
        self.g = g

    def __call__(self, x, *rest):
        v = round(super().__call__(x), 2)
        v = min(max(v, -1e4), 1e4)
        return {"id": v, "affine": 3.0 * v - 7.0, "cube": v ** 3, "atan": float(np.arctan(v / 50.0)),
                "exp": float(np.exp(v / 1e3))}[self.g]


def rank(case, ctx):
    pts = []
    for g in ("id", case["g"]):
        rec = Monotone(case["s"]["f"], g)
        with sut.quiet(case["gseed"]):
            cma = CMAES({"population": case["pop"]} if case["pop"] is not None else {},
                        {"max_eval": case["max_eval"], "fatol": -1.0}, callback=lambda: True)
            sv = None if case["s"]["sigma"] is None else np.array(case["s"]["sigma"], float)
            cma.run_dsm(rec, np.array(case["s"]["x0"], float), sigma_v=sv)
        pts.append(rec.x)
    ctx.expect(len(pts[0]) == len(pts[1]), "number", "%d and %d evaluations" % (len(pts[0]), len(pts[1])))
    for i, (a, b) in enumerate(zip(*pts)):
        ctx.expect(np.allclose(a, b, rtol=1e-9, atol=1e-12), "rank", lambda: "evaluation %d moves from %s to %s under a "
                   "strictly increasing change (%s) of the values" % (i + 1, a, b, case["g"]))
    ctx.label(case["g"], case["s"]["f"]["kind"])
    ctx.nt(len(pts[0]) > 2 * flow.population(len(case["s"]["x0"]), case["pop"]))


@st.composite
def run_strategy(draw):
    c = draw(open_space.cfg(dsm=("CMAES",), max_dim=5, max_eval_total=(20, 150), max_si=2))
    a = c["algorithm_settings"]
    if draw(st.booleans()):
        a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(10, 80))
    scales = draw(st.lists(gen.fl(0.05, 3.0), min_size=2, max_size=5))
    return {"cfg": c, "obj": draw(gen.objective_spec(table=True)), "obj2": draw(gen.objective_spec(table=True)),
            "scales": scales, "gseed": draw(st.integers(0, 2 ** 31))}


def in_run(case, ctx):
    """As stream, for the searches inside a run: start point and start scales come from the controls."""
    import copy
    c1 = case["cfg"]
    c2 = copy.deepcopy(c1)
    for i, p in enumerate(c2["pulses"] + c2["parameters"]):
        p["amplitude_variation"] = case["scales"][i % len(case["scales"])]
    norms = []
    g = c1["algorithm_settings"]["dsm_settings"]["general_settings"]
    for c, obj in ((c1, case["obj"]), (c2, case["obj2"])):
        with sut.scratch():
            r = runs.run(c, obj, attach=runs.attach_si, gseed=case["gseed"])
        seg = runs.segments(r.evals)[0]
        X = [open_space.x_of(e) for e in seg]
        ctx.expect(sut.close(X[0], open_space.start(c), 1e-12, 1e-12), "run-start", "the first evaluation is at %s" % X[0])
        z, pop = cmaref.whiten(X, [e["F"] for e in seg], open_space.scale(c), g.get("population"))
        norms.append([float(np.linalg.norm(v)) for _, v in z])
    k = min(map(len, norms))
    for i in range(k):
        a, b = norms[0][i], norms[1][i]
        ctx.expect(abs(a - b) <= 1e-4 * (1e-2 + a), "run-adaptation", lambda: "sample %d lies %.8g reference standard "
                   "deviations from the mean with one set of scales and %.8g with another" % (i + 2, a, b))
    runs.labels(ctx, c1, r)
    ctx.nt(k > 2 * pop)


FAMILIES = [Family("stream", stream_strategy, stream, 960, 12000, rule="compared into the fourth generation"),
            Family("normal", normal_strategy, normal, 160, 2400, rule="at least 200 whitened samples"),
            Family("rank", rank_strategy, rank, 480, 6000, rule="more than two generations"),
            Family("run", run_strategy, in_run, 400, 5000, rule="compared beyond two generations")]
