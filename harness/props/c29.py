"""C29: every gradient the AD algorithm gives its optimiser against central differences of an independent double-precision
model of the controls and the figure of merit."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, lbfgs, quant, runs, sut
from .. import pulsemodel as pm
from ..engine import Family
from quocslib.Controls import Controls
from quocslib.tools.randomgenerator import RandomNumberGenerator

SCALE2 = ["lambda t, p: p*jnp.cos(t)", "lambda t, p: jnp.tanh(p)", "lambda t, p: p + 0.3*jnp.sin(p + t)"]


def fom(spec, pulses, parameters, timegrids, xp):
    """Smooth function of all controls with couplings between them; the arrays are padded to the longest pulse."""
    val = 0.3
    for i in range(len(pulses)):
        p, t = xp.real(pulses[i]), xp.real(timegrids[i])
        n = p.shape[0]
        w = spec["w"][i % len(spec["w"])] * xp.cos(1.0 + 0.7 * xp.arange(n))
        val = val + xp.mean(w * p + 0.5 * p * p * (1.0 + 0.2 * t)) + spec["s"] * xp.mean(xp.sin(p * (1.0 + i) + t))
        for k in range(i):
            val = val + 0.4 * xp.mean(p * xp.real(pulses[k]))
        for j in range(len(parameters)):
            val = val + 0.3 * xp.mean(xp.sin(p + xp.real(parameters[j])))
    for j in range(len(parameters)):
        x = xp.real(parameters[j])
        val = val + spec["q"] * (x - 0.2 * j) ** 2 + 0.3 * xp.cos(2.0 * x)
    return val


class Fom(quant.ADFoM):
    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        import jax.numpy as jnp
        if quant.traced(pulses) or quant.traced(parameters):
            v = fom(self.spec, pulses, parameters, timegrids, jnp)
            return {"FoM": -v if self.maximize else v}
        return sut.RecFoM.get_FoM(self, pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)

    def objective(self, pulses, parameters, timegrids, k):
        return float(fom(self.spec, [np.asarray(p, complex) for p in pulses], np.asarray(parameters, complex),
                         [np.asarray(t, complex) for t in timegrids], np))


def plain(cfg):
    """The configuration for the reference, with NumPy functions."""
    c = copy.deepcopy(cfg)
    for p in c["pulses"]:
        for k in ("initial_guess", "scaling_function"):
            if p.get(k, {}).get("lambda_function"):
                p[k]["lambda_function"] = p[k]["lambda_function"].replace("jnp.", "np.")
    return c


class Model:
    def __init__(self, cfg, spec):
        self.cfg, self.spec = plain(cfg), spec
        self.base = [np.zeros(p["bins_number"]) for p in cfg["pulses"]]
        self.lay = pm.layout(self.cfg)
        self.n = self.lay[-1][3]

    def update(self, x):
        for i, p in enumerate(self.cfg["pulses"]):
            a, b = self.lay[i][2:]
            self.base[i] = np.array(x[a:b]) if p.get("overwrite_base_pulse") else self.base[i] + x[a:b]

    def controls(self, x):
        P, T, X = [], [], []
        i = 0
        for kind, s, a, b in self.lay:
            if kind == "pulse":
                tf = pm.final_time(self.cfg, s)
                P.append(pm.shape(s, tf, self.base[i], x[a:b]))
                T.append(pm.time_grid(s, tf))
                i += 1
            else:
                X.append(pm.param_value(s, x[a]))
        m = max([len(p) for p in P] + [0])
        pad = lambda v: np.concatenate([v, np.zeros(m - len(v))])   # noqa: E731
        return [pad(p) for p in P], [pad(t) for t in T], np.array(X)

    def value(self, x):
        P, T, X = self.controls(x)
        return float(fom(self.spec, P, X, T, np))

    def gradient(self, x):
        """(central differences, usable components): a component next to a kink is left out."""
        g, ok = np.zeros(self.n), np.ones(self.n, bool)
        f0 = self.value(x)
        for i in range(self.n):
            d = []
            for h in (2e-4, 1e-4):
                e = np.zeros(self.n)
                e[i] = h
                up, dn = self.value(x + e), self.value(x - e)
                d.append(((up - dn) / (2 * h), (up - f0) / h, (f0 - dn) / h))
            g[i] = d[1][0]
            # at a kink the one-sided slopes differ by more than the curvature explains
            ok[i] = abs((d[0][1] - d[0][2]) - 2 * (d[1][1] - d[1][2])) <= 1e-5 * (1 + abs(g[i]))
            ok[i] &= abs(d[0][0] - d[1][0]) <= 1e-5 * (1 + abs(g[i]))
        return g, ok


@st.composite
def cfgs(draw, **kw):
    cfg = draw(runs.ad_cfg(tight=draw(st.booleans()), **kw))
    for p in cfg["pulses"]:
        if draw(st.integers(0, 4)) == 0:
            p["scaling_function"] = {"function_type": "lambda_function", "lambda_function": draw(st.sampled_from(SCALE2))}
        elif draw(st.integers(0, 4)) == 0:
            n = p["bins_number"]
            p["scaling_function"] = {"function_type": "list_function", "list_function": draw(
                st.lists(gen.fl(-1, 2), min_size=n, max_size=n))}
        if draw(st.integers(0, 4)) == 0:
            n = p["bins_number"]
            p["initial_guess"] = {"function_type": "list_function", "list_function": draw(
                st.lists(gen.fl(-1, 1), min_size=n, max_size=n))}
        if draw(st.integers(0, 3)) == 0:
            p["shaping_options"] = draw(st.permutations(pm.DEFAULT_STEPS))
        if draw(st.integers(0, 5)) == 0:
            p["overwrite_base_pulse"] = True
    return cfg


def spec_of(draw):
    return {"kind": "ad", "w": draw(st.lists(gen.fl(-2, 2), min_size=2, max_size=2)), "s": draw(gen.fl(-1, 1)), "q": draw(gen.fl(-1, 1))}


def compare(ctx, where, got, ref, ok, sgn=1.0):
    got = np.asarray(got, float)
    ctx.expect(got.shape == ref.shape, "shape", "%s: a gradient of shape %s for %d control parameters" % (where, got.shape, len(ref)))
    tol = 2e-4 * (1 + np.abs(ref).max())
    err = np.where(ok, np.abs(got - ref), 0)
    err = np.where(np.isfinite(got), err, np.inf)
    i = int(np.argmax(err))
    ctx.expect(err[i] <= tol, "gradient", lambda: "%s, component %d of %d: gradient %r, derivative %r" % (
        where, i + 1, len(ref), got[i], ref[i]))


@st.composite
def strategy(draw):
    cfg = draw(cfgs(max_eval_total=(3, 8), max_si=3))
    return {"cfg": cfg, "obj": spec_of(draw)}


def check(case, ctx):
    cfg = case["cfg"]
    log = []
    si = []
    with sut.scratch(), lbfgs.recorder(log, mark=lambda: len(si)):
        r = sut.optimize(cfg, case["obj"], fom_class=Fom, attach=lambda r: runs.attach_si(r))
    m = Model(cfg, case["obj"])
    best, best_x, cur, k, ng, later = np.inf, None, 1, 0, 0, False
    for e in log:
        if e["search"] != cur:
            m.update(best_x if best_x is not None else np.zeros(m.n))
            best_x, cur = None, e["search"]
        if e["kind"] == "f":
            if k >= len(r.evals):
                break                              # the run has ended, only placeholders follow
            ev = r.evals[k]
            k += 1
            F = m.value(e["x"])
            ctx.expect(abs(e["val"] - F) <= 2e-4 * (1 + abs(F)), "value", "evaluation %d: the optimiser got %r, the "
                       "(minimised) value is %r" % (ev["k"], e["val"], F))
            if e["val"] < best:
                best, best_x = e["val"], e["x"]
        elif e["kind"] == "g":
            g, ok = m.gradient(e["x"])
            compare(ctx, "search %d, after %d evaluations" % (cur, k), e["val"], g, ok)
            ng += 1
            later |= cur > 1
    runs.labels(ctx, cfg, r)
    ctx.label("later searches" if later else "one search")
    ctx.nt(ng > 1)


@st.composite
def direct(draw):
    cfg = draw(cfgs(npul=(1, 3), npar=(0, 3), maxbins=7))
    m = Model(cfg, {})
    vec = st.lists(gen.fl(-2, 2), min_size=m.n, max_size=m.n)
    return {"cfg": cfg, "obj": spec_of(draw), "updates": draw(st.lists(vec, max_size=2)), "x": draw(st.lists(vec, min_size=1, max_size=2))}


def pipeline(case, ctx):
    import jax
    import jax.numpy as jnp
    cfg, m = case["cfg"], Model(case["cfg"], case["obj"])
    c = copy.deepcopy(cfg)
    with sut.scratch(), sut.quiet():
        ctl = Controls(c["pulses"], c["times"], c["parameters"], rng=RandomNumberGenerator(seed_number=1), is_AD=True)

        def f(x):
            P, T, X = ctl.get_controls_lists(x)
            return jnp.real(fom(case["obj"], P, X, T, jnp))
        ctl.select_basis()
        for u in case["updates"]:
            ctl.update_base_controls(np.array(u))
            m.update(np.array(u))
            ctl.select_basis()
        for k, x in enumerate(case["x"]):
            x = np.array(x)
            v, g = jax.value_and_grad(f)(x)
            F = m.value(x)
            ctx.expect(abs(float(v) - F) <= 2e-4 * (1 + abs(F)), "value", "vector %d: value %r, reference %r" % (k + 1, float(v), F))
            ref, ok = m.gradient(x)
            compare(ctx, "vector %d after %d updates" % (k + 1, len(case["updates"])), g, ref, ok)
    P = m.controls(np.array(case["x"][-1]))[0]
    ctx.label("%d pulses" % len(P), "%d updates" % len(case["updates"]))
    ctx.nt(np.count_nonzero(ref) * 2 > m.n and ok.all())


FAMILIES = [Family("runs", strategy, check, 64, 1000, rule="at least two gradients"),
            Family("controls", direct, pipeline, 160, 4000, rule="most components are not zero and none is at a kink")]
