"""C28: every gradient GRAPE gives its optimiser against the exact derivative of the overlap, slice by slice."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, lbfgs, quant, runs, sut
from ..engine import Family


def exact(p, dt, H0, B, rho0, rhot):
    """Value of -tr(rhot rho(T)), its exact derivative with respect to each slice, and the error bound of a first-order one."""
    n = len(p)
    Us, dUs, bound = [], [], []
    for u in p:
        H = H0 + u * B
        w, V = np.linalg.eigh(H)
        Us.append((V * np.exp(-1j * dt * w)) @ V.conj().T)
        s, d = w[:, None] + w[None, :], w[:, None] - w[None, :]
        phi = -1j * dt * np.exp(-0.5j * dt * s) * np.sinc(0.5 * dt * d / np.pi)
        dUs.append(V @ ((V.conj().T @ B @ V) * phi) @ V.conj().T)
        bound.append(dt * dt * np.linalg.norm(H @ B - B @ H, 2))
    fwd = [rho0]
    for U in Us:
        fwd.append(U @ fwd[-1] @ U.conj().T)
    bwd = [rhot]
    for U in reversed(Us):
        bwd.append(U.conj().T @ bwd[-1] @ U)
    bwd.reverse()
    g = np.array([-2 * np.real(np.trace(bwd[i + 1] @ dUs[i] @ fwd[i] @ Us[i].conj().T)) for i in range(n)])
    return -np.real(np.trace(rhot @ fwd[-1])), g, np.array(bound)


class Fom(quant.GrapeFoM):
    """Matrices of the most natural array type; the order of the evaluations and propagator calls is recorded."""

    def set_system(self, sys):
        super().set_system(sys)
        self.exact_args = (self.H0, self.H1, self.rho0, self.rhot)
        if sys.get("real"):
            self.H0, self.H1, self.rho0, self.rhot = (np.ascontiguousarray(m.real) for m in (self.H0, self.H1, self.rho0, self.rhot))
            self.exact_args = (self.H0, self.H1, self.rho0, self.rhot)
            if sys["real"] == "int":
                self.rho0, self.rhot = np.rint(self.rho0).astype(int), np.rint(self.rhot).astype(int)
                self.exact_args = (self.H0, self.H1, self.rho0, self.rhot)
        return self


@st.composite
def strategy(draw):
    d = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["complex", "complex", "complex", "real", "int"]))
    sys = {"H0": draw(quant.herm_spec(d)), "H1": draw(quant.herm_spec(d)), "psi": draw(quant.state_spec(d)),
           "tgt": draw(quant.state_spec(d))}
    if kind != "complex":
        sys["real"] = kind
        for k in ("psi", "tgt"):
            if kind == "int":
                sys[k]["v"] = [0.0] * (2 * d)
                sys[k]["v"][draw(st.integers(0, d - 1))] = 1.0
            else:
                sys[k]["v"][d:] = [0.0] * d
    cfg = draw(quant.grape_cfg(max_eval_total=(2, 25)))
    cfg["sys"] = sys
    return {"cfg": cfg}


def check(case, ctx):
    import copy
    cfg = copy.deepcopy(case["cfg"])
    sysd = cfg.pop("sys")
    log = []
    with sut.scratch(), lbfgs.recorder(log):
        r = sut.optimize(cfg, {"kind": "quad", "pa": [0.0], "pc": [0.0]}, fom_class=Fom, system=sysd)
    H0, B, rho0, rhot = [np.asarray(m, complex) for m in r.fom.exact_args]
    fs = [e for e in log if e["kind"] == "f"]
    gs = {e["x"].tobytes(): e["val"] for e in log if e["kind"] == "g"}
    big = 0
    for e, ev in zip(fs, r.evals):
        p, t = np.asarray(ev["pulses"][0], float), np.asarray(ev["timegrids"][0], float)
        F, g, bound = exact(p, t[-1] / len(t), H0, B, rho0, rhot)
        where = "evaluation %d" % ev["k"]
        ctx.expect(abs(ev["F"] - F) <= 1e-9, "oracle", "%s: value %r, reference %r" % (where, ev["F"], F))
        ctx.expect(e["val"] == ev["F"], "value", "%s: the optimiser got %r, the value is %r" % (where, e["val"], ev["F"]))
        got = gs.get(e["x"].tobytes())
        if got is None:
            continue
        ctx.expect(got.shape == g.shape, "shape", "%s: gradient of shape %s for %s slices" % (where, got.shape, g.shape))
        err = np.abs(got - g)
        i = int(np.argmax(err - 2 * bound))
        ctx.expect(err[i] <= 2 * bound[i] + 1e-9, "gradient", lambda: (
            "%s, slice %d of %d: gradient %r, derivative %r, a first-order formula is at most %.3g off" % (
                where, i + 1, len(g), got[i], g[i], bound[i])))
        big += np.max(np.abs(g)) > 10 * np.max(bound)
    runs.labels(ctx, cfg, r)
    ctx.label(sysd.get("real", "complex"), "d=%d" % sysd["H0"]["d"])
    ctx.nt(big >= 1 and len(gs) > 1)


@st.composite
def fine(draw):
    """Short total times: the gradient has to be accurate in relative terms."""
    c = draw(strategy())
    for t in c["cfg"]["times"]:
        t["initial_value"] = draw(gen.fl(0.005, 0.3))
    c["cfg"]["pulses"][0]["bins_number"] = n = draw(st.integers(4, 12))
    for key in ("initial_guess", "scaling_function"):
        p = c["cfg"]["pulses"][0]
        if p.get(key, {}).get("function_type") == "list_function":
            p[key]["list_function"] = (p[key]["list_function"] * 12)[:n]
    return c


RULE = "at some evaluation the derivative is ten times what a first-order formula may be off"
FAMILIES = [Family("systems", strategy, check, 640, 10000, rule=RULE), Family("small-steps", fine, check, 640, 10000, rule=RULE)]
