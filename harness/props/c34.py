"""C34: the built-in figures of merit against independent references, along histories of calls to one object."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gen, quant, sut
from ..engine import Family
from .c30 import expm

SX, SY, SZ = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1.0, -1.0])


@st.composite
def amplitudes(draw):
    """A state of any norm and phase, as the text a user writes."""
    if draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(["[1.0, 0.0]", "[1, 1]", "[1.0/np.sqrt(2), -1j/np.sqrt(2)]", "[0, 2j]", "[3, 4j]", "[0.1, -0.1]"]))
    v = draw(st.lists(gen.fl(-2, 2), min_size=4, max_size=4))
    if sum(x * x for x in v) < 1e-2:
        v[0] = 1.0
    return "[%r + %rj, %r + %rj]" % tuple(v)


def vec(s):
    return np.array(eval(s, {"np": np}), complex)


@st.composite
def controls(draw, npul, npar):
    n = draw(st.integers(2, 12))
    T = draw(gen.fl(0.05, 6.0))
    return {"p": [draw(st.lists(gen.fl(-4, 4), min_size=n, max_size=n)) for _ in range(npul)], "T": T,
            "x": draw(st.lists(gen.fl(-3, 3), min_size=npar, max_size=npar))}


@st.composite
def one_qubit(draw, npul):
    a = {}
    if draw(st.integers(0, 3)):
        a["initial_state"] = draw(amplitudes())
    if draw(st.integers(0, 3)):
        a["target_state"] = draw(amplitudes())
    for k in ("delta1", "delta2"):
        if draw(st.booleans()):
            a[k] = draw(gen.fl(-2, 2))
    if draw(st.integers(0, 2)) == 0:
        a["is_noisy"] = True
        if draw(st.booleans()):
            a["noise_factor"] = draw(gen.fl(0.0, 0.5))
    npar = 0
    if npul == 1:
        if draw(st.booleans()):
            a["optimization_factor"] = draw(st.sampled_from([-1.0, 1.0]))
        if draw(st.integers(0, 2)) == 0:
            a["include_drift"] = True
            if draw(st.booleans()):
                a["linear_drift_val_over_iteration"] = draw(gen.fl(-0.1, 0.1))
        npar = draw(st.integers(0, 2))
    return {"args": a, "calls": draw(st.lists(controls(npul, npar), min_size=1, max_size=5)), "array": draw(st.booleans()),
            "again": draw(st.lists(st.sampled_from([0, 0, 0, 0, 3, 20, 120, 260]), min_size=5, max_size=5)),
            "none": not a and draw(st.booleans())}


def infidelity(a, c, two):
    psi, tgt = vec(a.get("initial_state", "[1.0, 0.0]")), vec(a.get("target_state", "[1.0/np.sqrt(2), -1j/np.sqrt(2)]"))
    psi, tgt = psi / np.linalg.norm(psi), tgt / np.linalg.norm(tgt)
    d1, d2 = a.get("delta1", 0.1), a.get("delta2", 0.1)
    n = len(c["p"][0])
    dt = c["T"] / (n - 1)
    for i in range(n):
        if two:
            A, ph = c["p"][0][i], c["p"][1][i]
            H = d1 * SZ / 2 + A * (1 + d2) * (np.cos(ph) * SX + np.sin(ph) * SY)
        else:
            d = c["x"][0] if c["x"] else d1
            H = d * SZ / 2 + (c["p"][0][i] + d2) * SX / 2
        psi = expm(-1j * dt * H) @ psi
    return 1.0 - abs(np.vdot(tgt, psi)) ** 2


def check_one_qubit(case, ctx, two=False):
    from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
    from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields
    a = case["args"]
    keep = dict(a)
    fom = (OneQubit2Fields if two else OneQubit)(None if case["none"] else dict(a))
    last = None
    with sut.quiet():
        # a call may be repeated: the drift counts evaluations, over any number of them
        seq = [c for i, c in enumerate(case["calls"]) for _ in range(1 + case["again"][i])]
        wants = {}
        for k, c in enumerate(seq):
            ps = [np.array(p) if case["array"] else list(p) for p in c["p"]]
            t = np.linspace(0, c["T"], len(ps[0]))
            res = fom.get_FoM(pulses=ps, parameters=list(c["x"]), timegrids=[t] * len(ps))
            if id(c) not in wants:
                wants[id(c)] = infidelity(keep, c, two)
            want = wants[id(c)]
            drift = keep.get("linear_drift_val_over_iteration", 0.002) * k if keep.get("include_drift") else 0.0
            sgn = 1.0 if two else -keep.get("optimization_factor", -1.0)
            amp = keep.get("noise_factor", 0.05) if keep.get("is_noisy") else 0.0
            got = res["FoM"]
            ctx.expect(abs(got - sgn * (want + drift)) <= amp + 1e-9, "value", lambda: (
                "call %d with %s: %r, expected %r within %r" % (k + 1, keep, got, sgn * (want + drift), amp)))
            ctx.expect(all(np.array_equal(np.asarray(p), np.array(q)) for p, q in zip(ps, c["p"])), "modified", "a pulse was modified")
            last = want
    ctx.label("noisy" if a.get("is_noisy") else "exact", "drift" if a.get("include_drift") else "no drift")
    ctx.label("evaluations: %s" % ("<10" if len(seq) < 10 else "<100" if len(seq) < 100 else ">=100"))
    ctx.nt(len(case["calls"]) > 1 and 0.01 < last < 0.99)


@st.composite
def rosen(draw):
    a = {}
    if draw(st.booleans()):
        a["is_noisy"] = draw(st.booleans())
        a["noise_factor"] = draw(gen.fl(0.0, 0.5))
    return {"args": a, "none": not a, "x": draw(st.lists(st.lists(gen.fl(-3, 3), min_size=1, max_size=5), min_size=1, max_size=4))}


def check_rosen(case, ctx):
    from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
    a = case["args"]
    fom = Rosenbrock() if case["none"] else Rosenbrock(dict(a))
    with sut.quiet():
        for x in case["x"]:
            got = fom.get_FoM(pulses=[], parameters=list(x), timegrids=[])["FoM"]
            want = sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))
            amp = a["noise_factor"] if a.get("is_noisy") else 0.0
            ctx.expect(abs(got - want) <= amp + 1e-9 * (1 + want), "rosenbrock", "at %s: %r, expected %r within %r" % (x, got, want, amp))
    ctx.nt(len(case["x"][-1]) > 1)


def ising_matrices(n, J, g):
    """Bit arithmetic instead of tensor products; qubit 0 is the most significant bit."""
    d = 2 ** n
    z = 1.0 - 2.0 * np.array([[(s >> (n - 1 - j)) & 1 for j in range(n)] for s in range(d)])
    E = -sum(J * z[:, j] * z[:, (j + 1) % n] + g * z[:, j] * z[:, (j + 2) % n] for j in range(n))
    X = np.zeros((d, d))
    for s in range(d):
        for j in range(n):
            X[s ^ (1 << j), s] += 1.0
    return np.diag(E), X


def ising_overlap(n, J, g, p, T):
    H0, X = ising_matrices(n, J, g)
    psi = np.zeros(2 ** n, complex)
    psi[0] = 1.0
    for U in quant.ref_steps(np.array([p]), H0, [X], T / len(p)):
        psi = U @ psi
    return abs(psi[-1]) ** 2


@st.composite
def ising(draw, jaxed=False):
    n = draw(st.integers(3, 3 if jaxed else 4))
    m = draw(st.sampled_from([2, 5, 9])) if jaxed else draw(st.integers(1, 8))
    a = {"n_qubits": n, "n_slices": m}
    for k in ("J", "g"):
        if draw(st.booleans()):
            a[k] = draw(gen.fl(-2, 2))
    if not jaxed and draw(st.booleans()):
        a["is_maximization"] = draw(st.booleans())
    base = np.pi / 2 / draw(gen.fl(0.2, 2.0))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        T = draw(gen.fl(0.1, 2.0))
        # drives around a pi pulse, so that the overlap is not tiny
        p = [round(base * v, 6) for v in draw(st.lists(gen.fl(-0.5, 1.5), min_size=m, max_size=m))]
        ops.append({"op": draw(st.sampled_from(["value", "value", "propagator"])), "p": p, "T": T,
                    "again": draw(st.integers(0, 3)) == 0,
                    # the drive before in another order, or with one slice changed, over the same time
                    "like": draw(st.sampled_from([None, None, "reversed", "rolled", "swapped", "last", "first", "negative"]))})
    return {"args": a, "ops": ops}


def check_ising(case, ctx, jaxed=False):
    a = case["args"]
    n, m, J, g = a["n_qubits"], a["n_slices"], a.get("J", 1), a.get("g", 2)
    if jaxed:
        import jax.numpy as jnp
        from quocslib.optimalcontrolproblems.IsingModelADProblem import IsingModel
        conv = lambda v: jnp.asarray(np.array(v)[None, :], dtype=jnp.complex64)   # noqa: E731
        sgn, tol = 1.0, 1e-4
    else:
        from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
        conv = lambda v: [np.array(v)]   # noqa: E731
        sgn, tol = (1.0 if a.get("is_maximization") else -1.0), 1e-5
    fom = IsingModel(dict(a))
    vals, prev = [], None
    with sut.quiet():
        for k, o in enumerate(case["ops"]):
            if o["again"] and prev:
                o = {**prev, "op": o["op"]}
            elif o["like"] and prev:
                q, i = list(prev["p"]), k % m
                if o["like"] == "swapped":
                    q[i], q[i - 1] = q[i - 1], q[i]
                else:
                    q = {"reversed": q[::-1], "rolled": q[1:] + q[:1], "last": q[:-1] + o["p"][-1:], "first": o["p"][:1] + q[1:],
                         "negative": [-v for v in q]}[o["like"]]
                o = {**prev, "op": o["op"], "p": q}
            prev = o
            t = np.linspace(0, o["T"], m)
            if o["op"] == "propagator" and not jaxed:
                U = fom.get_propagator(pulses_list=conv(o["p"]), time_grids_list=conv(t), parameters_list=[])
                H0, X = ising_matrices(n, J, g)
                ref = quant.ref_steps(np.array([o["p"]]), H0, [X], t[-1] / m)
                for i in range(m):
                    ctx.expect(np.abs(np.asarray(U[i]) - ref[i]).max() <= 1e-9, "propagator", "call %d: propagator %d is wrong" % (
                        k + 1, i + 1))
                continue
            got = float(fom.get_FoM(pulses=conv(o["p"]), parameters=[], timegrids=conv(t))["FoM"])
            want = sgn * ising_overlap(n, J, g, o["p"], t[-1])
            if jaxed:   # the single-precision matrix exponential of jax, see C30
                tol = 1e-4 + 1e-4 * t[-1] / m * sum(abs(v) * n + n * (abs(J) + abs(g)) for v in o["p"])
            ctx.expect(abs(got - want) <= tol, "overlap", lambda: "call %d with %s: %r, expected %r" % (k + 1, a, got, want))
            vals.append(abs(want))
    ctx.label("%d qubits" % n)
    ctx.nt(len(case["ops"]) > 1 and any(v > 1e-3 for v in vals))


FAMILIES = [Family("one-qubit", lambda: one_qubit(1), check_one_qubit, 1200, 20000, rule="several calls, infidelity strictly between 0 and 1"),
            Family("two-fields", lambda: one_qubit(2), functools.partial(check_one_qubit, two=True), 800, 12000, rule="as one-qubit"),
            Family("rosenbrock", rosen, check_rosen, 800, 10000, rule="at least two parameters"),
            Family("ising", ising, check_ising, 400, 6000, rule="several calls with an overlap above 0.001"),
            Family("ising-jax", lambda: ising(True), functools.partial(check_ising, jaxed=True), 64, 1200, rule="as ising")]
