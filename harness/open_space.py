"""Configurations in which the search vector can be read off the controls: piecewise pulses and parameters without
guess, scaling or active limits."""
import numpy as np
from hypothesis import strategies as st

from . import gen

WIDE = 1e7


@st.composite
def cfg(draw, algs=("dCRAB", "DirectSearch"), dsm=("NelderMead", "CMAES"), max_dim=5, max_eval_total=(10, 200), max_si=3,
        min_dim=1):
    alg = draw(st.sampled_from(algs))
    a = {"algorithm_name": alg, "max_eval_total": draw(st.integers(*max_eval_total)),
         "dsm_settings": {"general_settings": draw(gen.dsm_spec(dsm)), "stopping_criteria": {"xatol": -1.0, "fatol": -1.0}}}
    if draw(st.booleans()):
        a["optimization_direction"] = draw(st.sampled_from(["minimization", "maximization"]))
    times, pulses, params = [], [], []
    n = draw(st.integers(min_dim, max_dim))
    if alg == "dCRAB":
        a["super_iteration_number"] = draw(st.integers(1, max_si))
        if draw(st.booleans()):
            a["random_number_generator"] = {"seed_number": draw(st.integers(0, 2 ** 31 - 1))}
        times = draw(gen.times_spec(1))
        bins = draw(st.integers(0, n))
        if bins == 1 or (bins == 0 and draw(st.booleans())):
            bins = min(n, 2) if n >= 2 else 0
        if bins:
            pulses = [{"pulse_name": "Pulse1", "upper_limit": WIDE, "lower_limit": -WIDE, "bins_number": bins,
                       "time_name": "time1", "amplitude_variation": draw(gen.fl(0.05, 3.0)),
                       "basis": {"basis_name": "PiecewiseBasis"}}]
            n -= bins
    for i in range(n):
        params.append({"parameter_name": "Parameter%d" % (i + 1), "lower_limit": -WIDE, "upper_limit": WIDE,
                       "initial_value": draw(gen.fl(-3, 3)), "amplitude_variation": draw(gen.fl(0.05, 3.0))})
    return {"algorithm_settings": a, "times": times, "pulses": pulses, "parameters": params}


def dim(c):
    return sum(p["bins_number"] for p in c["pulses"]) + len(c["parameters"])


def x_of(e):
    return np.concatenate([np.asarray(p, float).ravel() for p in e["pulses"]] + [np.asarray(e["parameters"], float)])


def scale(c):
    return np.array([p["amplitude_variation"] for p in c["pulses"] for _ in range(p["bins_number"])] +
                    [q["amplitude_variation"] for q in c["parameters"]])


def start(c):
    return np.array([0.0] * sum(p["bins_number"] for p in c["pulses"]) + [q["initial_value"] for q in c["parameters"]])


def file_vec(c, f):
    """The search-space point of a best-controls file (or the unreadable / missing file itself)."""
    if not isinstance(f, dict):
        return f
    return np.concatenate([np.asarray(f[p["pulse_name"]], float).ravel() for p in c["pulses"]] +
                          [np.array([float(np.asarray(f[q["parameter_name"]]).reshape(-1)[0]) for q in c["parameters"]])])
