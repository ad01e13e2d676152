"""C32: statistics of the Ornstein-Uhlenbeck noise and the values of resampled pulses."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from .. import gen, sut
from ..engine import Family
from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck

P = 1e-11        # a correct sampler fails one of the ~5 tests of a case with less than this probability


@st.composite
def noise(draw):
    tau = draw(gen.fl(0.1, 10.0))
    dt = round(tau * draw(gen.fl(0.02, 3.0)), 6)
    steps = draw(st.sampled_from([1, 2, 3, 7, 60, 250]))
    frac = draw(st.sampled_from([0.0, 0.25, 0.5, 0.75]))
    return {"tau": tau, "dt": dt, "c": draw(gen.fl(0.05, 20.0)), "x0": draw(st.sampled_from([0.0, 0.0, 1.5, -4.0, 30.0])),
            "T": dt * (steps + frac), "n": 12000 // steps if steps > 3 else draw(st.integers(1, 400)), "seed": draw(st.integers(0, 10 ** 6))}


def tests(z):
    """(name, p-value) that the entries of z (realisations x steps) are independent standard normal."""
    N = z.size
    yield "mean", 2 * stats.norm.sf(abs(z.sum()) / math.sqrt(N))
    s = float((z * z).sum())
    yield "variance", 2 * min(stats.chi2.sf(s, N), stats.chi2.cdf(s, N))
    if N > 100:
        yield "normal distribution", stats.kstest(z.ravel(), "norm").pvalue
    # sums of products of independent standard normals, with the exponential tail a product has
    for name, a, b in (("next step", z[:, 1:], z[:, :-1]), ("next realisation", z[1:], z[:-1])):
        m = a.size
        if m > 500:
            yield "correlation with the " + name, 2 * stats.norm.sf(max(0.0, abs((a * b).sum()) / math.sqrt(m) - 1.0))


def check(case, ctx):
    ou = OrnsteinUhlenbeck(tau=case["tau"], c=case["c"], x0=case["x0"], dt=case["dt"])
    r = case["T"] / case["dt"]
    allowed = {math.floor(r - 1e-9), math.floor(r + 1e-9)}
    with sut.quiet(case["seed"]):
        one = np.asarray(ou.get_noise_realization(case["T"]))
        many = np.asarray(ou.get_ensemble_noise_realization(case["T"], case["n"]))
    ctx.expect(one.ndim == 1 and len(one) in allowed, "length", "%s samples for %.4f time steps" % (one.shape, r))
    ctx.expect(many.shape == (case["n"], len(one)), "ensemble-shape", "an ensemble of %d realisations has the shape %s" % (
        case["n"], many.shape))
    ctx.expect(one[0] == case["x0"] and (many[:, 0] == case["x0"]).all(), "start", "a realisation starts at %r instead of %r" % (
        one[0], case["x0"]))
    x = np.concatenate([one[None, :], many])
    mu = math.exp(-case["dt"] / case["tau"])
    var = 0.5 * case["c"] * case["tau"] * (1 - math.exp(-2 * case["dt"] / case["tau"]))
    z = (x[:, 1:] - mu * x[:, :-1]) / math.sqrt(var)
    if z.size:
        for name, p in tests(z):
            ctx.expect(p >= P, name.split()[0], "%s of %d increments: p = %.3g (mean %.4f, variance %.4f instead of 0 and 1)" % (
                name, z.size, p, z.mean(), z.var()))
        ctx.expect(len({row.tobytes() for row in x}) == len(x), "repeated", "two realisations of an ensemble are the same")
    ctx.label("%d steps" % len(one))
    ctx.nt(z.size > 5000)


@st.composite
def pulse(draw):
    n, k = draw(st.integers(2, 9)), draw(st.integers(1, 3))
    dt = draw(gen.fl(0.01, 3.0))
    t = st.one_of(st.integers(-2, n + 2).map(lambda i: i * 1.0), st.floats(-3, n + 3).map(lambda v: round(v, 3)))
    return {"dt": dt, "p": [draw(st.lists(gen.fl(-5, 5), min_size=k, max_size=k)) for _ in range(n)],
            "t": draw(st.lists(t, min_size=1, max_size=12)), "array": draw(st.booleans()), "sort": draw(st.booleans())}


def check_pulse(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    from quocslib.tools.pulsetools import resample_pulse
    p, dt = np.array(case["p"]), case["dt"]
    u = sorted(case["t"]) if case["sort"] else case["t"]
    t = [v * dt for v in u]
    keep = p.copy()
    got = np.asarray(resample_pulse(dt, p, np.array(t) if case["array"] else t))
    n, k = p.shape
    ctx.expect(got.shape == (len(t), k), "shape", "%d times and %d controls give %s values" % (len(t), k, got.shape))
    ctx.expect(np.array_equal(keep, p), "modified", "the pulse was modified")
    for i, v in enumerate(u):
        if v <= 0:
            idx = [0]
        elif v >= n - 1:
            idx = [n - 1]
        else:
            lo = math.floor(v)
            idx = [lo, lo + 1] if abs(v - lo - 0.5) < 1e-6 else [lo] if v - lo < 0.5 else [lo + 1]
        for j in range(k):
            ctx.expect(any(got[i, j] == p[q, j] for q in idx), "value", "control %d at the time %r dt: %r, the samples are %s" % (
                j + 1, v, got[i, j], p[:, j].tolist()))
    ctx.label("outside" if min(u) < 0 or max(u) > n - 1 else "inside", "%d controls" % k)
    ctx.nt(any(0 < v < n - 1 and v != int(v) for v in u))


FAMILIES = [Family("noise", noise, check, 240, 4000, rule="more than 5000 increments"),
            Family("resampling", pulse, check_pulse, 2400, 40000, rule="a new time lies between two original ones")]
