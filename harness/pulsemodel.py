"""Independent reference of pulses and parameters: plain functions of the configuration, written from the documented
formulas (no code under test is used here)."""
import math
import os

import numpy as np
from scipy.special import erf

DEFAULT_STEPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
CHOPPED = {"Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas", "Walsh"}


def n_coeff(p):
    b = p["basis"]
    k = b.get("basis_vector_number", 1)
    name = b["basis_name"]
    if name in ("Fourier", "Chebyshev"):
        return 2 * k
    if name == "Sinc":
        return k
    if name == "PiecewiseBasis":
        return p["bins_number"]
    if name == "Sigmoid":
        return k + 1
    if name in ("SigmoidTimeDep", "SigmoidSigmas"):
        return 2 * k + 1
    if name == "SigmoidAllParas":
        return k + 1 + (k if b.get("tau_variation", 0) > 1e-10 else 0) + (k if b.get("sigma_variation", 0) > 1e-10 else 0)
    raise KeyError(name)


def start_scale(p):
    av = p["amplitude_variation"]
    if p["basis"]["basis_name"] in ("Fourier", "Chebyshev", "Sinc"):
        av = av / math.sqrt(2.0)
    return np.full(n_coeff(p), av)


def layout(cfg):
    """[(kind, spec, start, stop)] of the search vector: pulses then parameters, in order."""
    out, i = [], 0
    for p in cfg["pulses"]:
        n = n_coeff(p)
        out.append(("pulse", p, i, i + n))
        i += n
    for q in cfg["parameters"]:
        out.append(("parameter", q, i, i + 1))
        i += 1
    return out


def final_time(cfg, p):
    return [t["initial_value"] for t in cfg["times"] if t["time_name"] == p["time_name"]][0]


def time_grid(p, T):
    n = p["bins_number"]
    if n == 1:
        return np.zeros(1)
    return np.arange(n) * (T / (n - 1))


def step(t, centre, width):
    """Smooth unit step of width `width` at `centre`."""
    return 0.5 * (1.0 + erf((t - centre) / (math.sqrt(2.0) * width)))


def _clamped_taus(tau, off, T):
    tau = np.array(tau, float)
    lo, hi = off, T - off
    if len(tau) == 1:
        return np.clip(tau, lo, hi)
    m, M = tau.min(), tau.max()
    if m < lo or M > hi:
        # affine map of the interval spanned (extended to reach the limits) onto [lo, hi]
        a, b = min(m, lo), max(M, hi)
        return 0.5 * T + (tau - 0.5 * (a + b)) * (T - 2 * off) / (b - a)
    return tau


def update(p, x, w, T):
    """Unshaped pulse from the pulse's own control parameters x and super-parameters w."""
    b = p["basis"]
    name = b["basis_name"]
    t = time_grid(p, T)
    x = np.asarray(x, float)
    k = b.get("basis_vector_number", 1)
    av = p["amplitude_variation"]
    if name == "PiecewiseBasis":
        return x.copy()
    if name == "Fourier":
        a = 2.0 * math.pi * np.outer(np.asarray(w), t) / T
        return x[0::2] @ np.sin(a) + x[1::2] @ np.cos(a)
    if name == "Chebyshev":
        c = np.arccos(-1 + 1e-10 + 2 * (1 - 1e-10) * t / T)
        return sum(x[2 * i] * np.cos(w[i] * c + x[2 * i + 1]) for i in range(k))
    if name == "Sinc":
        u = 2.0 * b.get("basis_max", 1.0) * (t[None, :] - np.asarray(w)[:, None]) / T
        return x @ np.sinc(u)
    if name == "Sigmoid":
        s, off = b.get("sigma", 0.1), b.get("offset", 0.1)
        v = x[0] * step(t, off, s)
        for i in range(k):
            v = v + x[1 + i] * step(t, w[i], s)
        return v - x.sum() * step(t, T - off, s)
    if name == "SigmoidTimeDep":
        s = b.get("sigma", 1e-10)
        off = b.get("offset", -10 * s)
        A = x[:k + 1]
        tau = _clamped_taus(np.asarray(w) + x[k + 1:] * b.get("tau_variation", 0.1) / av, off, T)
        v = A[0] * step(t, off, s)
        for i in range(k):
            v = v + A[1 + i] * step(t, tau[i], s)
        return v - A.sum() * step(t, T - off, s)
    if name in ("SigmoidSigmas", "SigmoidAllParas"):
        s = b.get("sigma", 1e-10)
        off = b.get("offset", -10 * s)
        A = x[:k + 1]
        tau, dsig = np.array(w, float), np.zeros(k)
        var_sig = True
        if name == "SigmoidSigmas":
            dsig = np.abs(x[k + 1:]) * b.get("sigma_variation", 1.0)
        else:
            tv, sv = b.get("tau_variation", 0.0), b.get("sigma_variation", 0.0)
            rest = x[k + 1:]
            if tv > 1e-10:
                tau = _clamped_taus(tau + rest[:k] * tv / av, off, T)
                rest = rest[k:]
            var_sig = sv > 1e-10
            if var_sig:
                dsig = np.abs(rest) * sv / av
        if var_sig and off >= 1e-10:
            # width limited so that the flank fits between the pulse edges
            smax = (T / 2 - np.abs(T / 2 - tau)) * s / off
            sig = s + (smax - s) * 0.5 * (1 - np.cos(math.pi * dsig))
        else:
            sig = s + dsig
        v = A[0] * step(t, off, s)
        for i in range(k):
            v = v + A[1 + i] * step(t, tau[i], sig[i])
        if name == "SigmoidSigmas" or off >= 1e-10:
            v = v - A.sum() * step(t, T - off, s)
        return v
    raise KeyError(name)


def limited(p, v):
    lo, hi = p.get("lower_limit", 0.0), p.get("upper_limit", 1.0)
    if lo > hi:
        lo, hi = hi, lo
    v = np.asarray(v, float)
    if not p.get("shrink_ampl_lim", False):
        return np.where(v > hi, hi, np.where(v < lo, lo, v))
    m, M = v.min(), v.max()
    if m >= hi:
        return np.full(v.shape, hi)
    if M <= lo:
        return np.full(v.shape, lo)
    m2, M2 = max(m, lo), min(M, hi)
    if m2 == m and M2 == M:
        return v.copy()
    return m2 + (v - m) * ((M2 - m2) / (M - m))


ENV = {"np": np, "math": math}


def _func(spec, default, cwd):
    if spec is None:
        return default
    kind = spec["function_type"]
    if kind == "lambda_function":
        return eval(spec["lambda_function"], dict(ENV))
    if kind == "list_function":
        a = np.asarray(spec["list_function"], float)
        return lambda t: a
    if kind == "python_file":
        src = spec.get("_source")      # the harness writes the file from this source
        if src is None:
            return default
        ns = {}
        exec(src, ns)
        return ns[spec["function_name"]]
    return default


def guess(p, T):
    f = _func(p.get("initial_guess"), lambda t: 0.0 * t, None)
    return limited(p, np.broadcast_to(np.asarray(f(time_grid(p, T)), float), (p["bins_number"],)))


def scale_value(p, T, v):
    f = _func(p.get("scaling_function"), lambda t: 1.0 + 0.0 * t, None)
    t = time_grid(p, T)
    n = f.__code__.co_argcount
    if n == 2:
        return f(t, v)
    return f(t) * v


def nonlinear_scaling(p):
    """The scaling is a function of time and pulse."""
    f = _func(p.get("scaling_function"), lambda t: 1.0 + 0.0 * t, None)
    return f.__code__.co_argcount == 2


def steps_of(p):
    s = p.get("shaping_options")
    return DEFAULT_STEPS if s is None else s


def shape(p, T, base, upd):
    v = np.zeros(p["bins_number"])
    for s in steps_of(p):
        if s == "add_initial_guess":
            v = v + guess(p, T)
        elif s == "add_base_pulse":
            v = v + base
        elif s == "add_new_update_pulse":
            v = v + upd
        elif s == "scale_pulse":
            v = scale_value(p, T, v)
        elif s == "limit_pulse":
            v = limited(p, v)
    return v


def ends_limited(p):
    steps = steps_of(p)
    return len(steps) > 0 and steps[-1] == "limit_pulse"


def param_value(q, x):
    return min(max(x, q["lower_limit"]), q["upper_limit"])
