"""C17: the start simplex."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, open_space, runs, sut
from ..engine import Family
from quocslib.tools.linearalgebra import simplex_creation
from quocslib.tools.randomgenerator import RandomNumberGenerator


def orthonormal(ctx, D, where, tol=1e-6):
    n = D.shape[0]
    G = D @ D.T
    ctx.expect(sut.close(G, np.eye(n), tol, tol), "not-orthonormal", lambda: "%s: scaled displacements\n%s\nhave the Gram "
               "matrix\n%s" % (where, D, G))


@st.composite
def unit_strategy(draw):
    n = draw(st.integers(1, 12))
    scale = st.one_of(gen.fl(0.01, 3.0), st.sampled_from([1e-6, 1e3, 1.0]))
    return {"mean": draw(st.lists(gen.fl(-10, 10), min_size=n, max_size=n)),
            "sigma": draw(st.lists(scale, min_size=n, max_size=n)),
            "seed": draw(st.one_of(st.none(), st.integers(0, 2 ** 31))), "gseed": draw(st.integers(0, 2 ** 31))}


def unit(case, ctx):
    mean, sigma = np.array(case["mean"], float), np.array(case["sigma"], float)
    n = mean.size
    m0, s0 = mean.copy(), sigma.copy()
    with sut.quiet(case["gseed"]):
        rng = None if case["seed"] is None else RandomNumberGenerator(case["seed"])
        S = np.asarray(simplex_creation(mean, sigma, rng=rng))
    ctx.expect(S.shape == (n + 1, n), "shape", "simplex of shape %s for %d coordinates" % (S.shape, n))
    ctx.expect(np.array_equal(mean, m0) and np.array_equal(sigma, s0), "inputs-modified", "the inputs were modified")
    d = np.abs(S - m0).max(axis=1)
    ctx.expect(d[0] <= 1e-12 * (1 + np.abs(m0).max()), "centre", "the first vertex %s is not the start point %s" % (S[0], m0))
    ext = 1e-13 * (1 + np.abs(m0).max()) / s0.min()      # rounding of mean + displacement
    orthonormal(ctx, (S[1:] - m0) / s0, "n = %d" % n, 1e-6 + 10 * ext)
    ctx.label("n=%d" % n, "seeded" if case["seed"] is not None else "global generator")
    ctx.nt(n > 1)


@st.composite
def run_strategy(draw):
    c = draw(open_space.cfg(dsm=("NelderMead",), max_dim=6, max_eval_total=(10, 120)))
    a = c["algorithm_settings"]
    a["dsm_settings"]["stopping_criteria"]["max_eval"] = draw(st.integers(2, 40))
    return {"cfg": c, "obj": draw(gen.objective_spec(table=True))}


def in_run(case, ctx):
    cfg = case["cfg"]
    n = open_space.dim(cfg)
    with sut.scratch():
        r = runs.run(cfg, case["obj"], attach=runs.attach_si)
    full = 0
    for seg in runs.segments(r.evals):
        X = np.array([open_space.x_of(e) for e in seg[:n + 1]])
        k = seg[0]["si"]
        if k == 1:
            ctx.expect(sut.close(X[0], open_space.start(cfg), 1e-12, 1e-12), "centre", lambda: "the search starts at %s "
                       "instead of %s" % (X[0], open_space.start(cfg)))
        D = (X[1:] - X[0]) / open_space.scale(cfg)
        if len(D):
            orthonormal(ctx, D, "search %d" % k, 1e-6)
        full += len(X) == n + 1
    runs.labels(ctx, cfg, r)
    ctx.nt(full > 0 and n > 1)


FAMILIES = [Family("unit", unit_strategy, unit, 4000, 60000, rule="more than one coordinate"),
            Family("run", run_strategy, in_run, 480, 6000, rule="a complete start simplex with more than one coordinate")]
