"""Quantum objects for GRAPE and AD cases, from JSON-able specifications."""

import jax  # imported up front: its import draws from the global random generator
import jax.numpy  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from . import gen, sut


@st.composite
def herm_spec(draw, d, amp=1.5):
    n = d * d
    return {"d": d, "v": draw(st.lists(gen.fl(-amp, amp), min_size=n, max_size=n))}


def herm(spec):
    d, v = spec["d"], spec["v"]
    H = np.zeros((d, d), complex)
    k = 0
    for i in range(d):
        H[i, i] = v[k]
        k += 1
        for j in range(i + 1, d):
            H[i, j] = v[k] + 1j * v[k + 1]
            H[j, i] = np.conj(H[i, j])
            k += 2
    return H


@st.composite
def state_spec(draw, d):
    return {"d": d, "v": draw(st.lists(gen.fl(-1, 1), min_size=2 * d, max_size=2 * d))}


def state(spec):
    d, v = spec["d"], spec["v"]
    s = np.array(v[:d]) + 1j * np.array(v[d:])
    if np.linalg.norm(s) < 0.05:
        s = s + np.eye(d)[0]
    return s / np.linalg.norm(s)


def proj(s):
    return np.outer(s, s.conj())


def ref_steps(drive, H0, Hs, dt):
    """Exact step propagators; drive has shape (n_controls, n)."""
    out = []
    for i in range(drive.shape[1]):
        H = np.array(H0, complex)
        for k in range(drive.shape[0]):
            H = H + drive[k, i] * Hs[k]
        w, V = np.linalg.eigh(H)
        out.append((V * np.exp(-1j * dt * w)) @ V.conj().T)
    return out


class GrapeFoM(sut.RecFoM):
    """State transfer with one control; FoM = -overlap (or an arbitrary objective), recorded like RecFoM."""

    def set_system(self, sys):
        self.H0, self.H1 = herm(sys["H0"]), herm(sys["H1"])
        self.rho0, self.rhot = proj(state(sys["psi"])), proj(state(sys["tgt"]))
        self.arbitrary = sys.get("arbitrary", False)
        self.grad_calls = []
        return self

    def get_initial_state(self):
        return self.rho0

    def get_target_state(self):
        return self.rhot

    def get_drift_Hamiltonian(self):
        return self.H0

    def get_control_Hamiltonians(self):
        return self.H1

    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        p, t = np.asarray(pulses_list[0], float), np.asarray(time_grids_list[0], float)
        self.grad_calls.append(np.array(p))
        return ref_steps(p[None, :], self.H0, [self.H1], t[-1] / len(t))

    def value(self, pulses, timegrids):
        p, t = np.asarray(pulses[0], float), np.asarray(timegrids[0], float)
        rho = self.rho0
        for U in ref_steps(p[None, :], self.H0, [self.H1], t[-1] / len(t)):
            rho = U @ rho @ U.conj().T
        return -float(np.real(np.trace(self.rhot.conj().T @ rho)))

    def objective(self, pulses, parameters, timegrids, k):
        if self.arbitrary:
            return sut.objective_value(self.spec, pulses, parameters, k)
        return self.value(pulses, timegrids)


@st.composite
def grape_sys(draw, arbitrary=False):
    d = draw(st.integers(2, 3))
    s = {"H0": draw(herm_spec(d)), "H1": draw(herm_spec(d)), "psi": draw(state_spec(d)), "tgt": draw(state_spec(d))}
    if arbitrary:
        s["arbitrary"] = draw(st.booleans())
    return s


@st.composite
def grape_cfg(draw, max_eval_total=(2, 40), direction=True, **pk):
    times = draw(gen.times_spec(1))
    p = draw(gen.pulse_spec(0, times, bases=["PiecewiseBasis"], minbins=2, **pk))
    p["bins_number"] = draw(st.integers(2, 8))
    for key in ("initial_guess", "scaling_function"):
        if p.get(key, {}).get("function_type") == "list_function":
            p[key]["list_function"] = (p[key]["list_function"] * 8)[:p["bins_number"]]
    alg = {"algorithm_name": "GRAPE", "max_eval_total": draw(st.integers(*max_eval_total)),
           "stopping_criteria": {"max_eval_total": draw(st.integers(3, 60)), "ftol": 1e-12, "gtol": 1e-10}}
    if draw(st.booleans()):
        alg["random_number_generator"] = {"seed_number": draw(st.integers(0, 2 ** 31 - 1))}
    if direction and draw(st.booleans()):
        alg["optimization_direction"] = draw(st.sampled_from(["minimization", "maximization"]))
    return {"algorithm_settings": alg, "times": times, "pulses": [p], "parameters": []}


def traced(x):
    import jax
    return isinstance(x, jax.core.Tracer)


class ADFoM(sut.RecFoM):
    """Differentiable figure of merit; calls made while jax is tracing are not evaluations."""
    traces = 0

    def get_FoM(self, pulses=[], parameters=[], timegrids=[], **kw):
        import jax.numpy as jnp
        if traced(pulses) or traced(parameters):
            self.traces += 1
            v = ad_value(self.spec, pulses, parameters, timegrids, jnp)
            return {"FoM": -v if self.maximize else v}
        return super().get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids, **kw)

    def objective(self, pulses, parameters, timegrids, k):
        if self.spec["kind"] == "table":
            return sut.objective_value(self.spec, pulses, parameters, k)
        return float(ad_value(self.spec, [np.asarray(p) for p in pulses], np.asarray(parameters),
                              [np.asarray(t) for t in timegrids], np))


def ad_value(spec, pulses, parameters, timegrids, xp):
    """Smooth function of all controls."""
    val = spec.get("off", 0.0)
    spec = {"pa": [0.5], "pc": [0.3], **spec}
    for i in range(len(pulses)):
        p = xp.real(pulses[i])
        t = xp.real(timegrids[i])
        a = spec["pa"][i % len(spec["pa"])]
        d = p - a * (1.0 + 0.5 * xp.sin(2.0 * t))
        val = val + xp.mean(d * d)
        if spec["kind"] == "trig":
            val = val + 0.3 * xp.mean(xp.cos(2.0 * p + t))
    for j in range(len(parameters)):
        x = xp.real(parameters[j])
        c = spec["pc"][j % len(spec["pc"])]
        val = val + (x - c) ** 2
        if spec["kind"] == "trig":
            val = val + 0.3 * xp.cos(3.0 * x)
    return val
