"""C31: identities of the linear-algebra helpers on generated matrices, states and subsystem structures."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, quant
from ..engine import Family
from .c30 import expm
from quocslib.tools import linearalgebra as la


@st.composite
def mat_spec(draw, d, e=None, real=False, lo=-2, hi=2):
    e = e or d
    z = [0.0] * (d * e)
    # few distinct values now and then: exact zeros, ones and equal entries
    el = st.sampled_from([0.0, 1.0, -1.0, 2.0]) if draw(st.integers(0, 2)) == 0 else gen.fl(lo, hi)
    return {"s": [d, e], "re": draw(st.lists(el, min_size=d * e, max_size=d * e)),
            "im": z if real else draw(st.lists(el, min_size=d * e, max_size=d * e)), "real": real}


def mat(s):
    a = np.array(s["re"]).reshape(s["s"])
    return a if s["real"] else a + 1j * np.array(s["im"]).reshape(s["s"])


@st.composite
def algebra(draw):
    d = draw(st.integers(1, 5))
    real = draw(st.booleans())
    return {"A": draw(mat_spec(d, real=real)), "B": draw(mat_spec(d, real=draw(st.booleans()))),
            "V": draw(mat_spec(d + draw(st.integers(0, 2)), d, real=draw(st.booleans()))), "H": draw(quant.herm_spec(d)),
            "herm": draw(st.booleans())}


def check_algebra(case, ctx):
    A, B, V = mat(case["A"]), mat(case["B"]), mat(case["V"])
    d = len(A)
    H = quant.herm(case["H"]) if case["herm"] else A
    keep = [A.copy(), B.copy()]
    C = la.commutator(A, B)
    ref = np.einsum("ij,jk->ik", A, B) - np.einsum("ij,jk->ik", B, A)
    ctx.expect(np.abs(C - ref).max() <= 1e-12 * (1 + np.abs(ref).max()), "commutator", "commutator %s, expected %s" % (C, ref))
    v = np.asarray(la.to_vec(B))
    ctx.expect(v.size == d * d and sorted(map(str, v.ravel())) == sorted(map(str, B.ravel())), "vec",
               "the vector %s does not hold the entries of %s" % (v, B))
    got = np.asarray(la.to_sup_op(H)) @ v.ravel()
    want = np.asarray(la.to_vec(H @ B - B @ H)).ravel()
    ctx.expect(np.abs(got - want).max() <= 1e-10 * (1 + np.abs(want).max()), "liouvillian", lambda: (
        "for H = %s and R = %s the superoperator gives %s, vec(HR - RH) is %s" % (H.tolist(), B.tolist(), got, want)))
    ctx.expect(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), "modified", "an input was modified")
    sv = np.linalg.svd(V, compute_uv=False)
    ok = sv[-1] > 1e-3 * sv[0]
    if ok:
        Q = np.asarray(la.gram_schmidt(V.copy()))
        k = V.shape[1]
        ctx.expect(Q.shape == V.shape and np.abs(Q.conj().T @ Q - np.eye(k)).max() <= 1e-8, "orthonormal", lambda: (
            "Gram-Schmidt of %s is not orthonormal: %s" % (V.tolist(), Q.tolist())))
        for j in range(k):
            W = Q[:, :j + 1]
            rest = V[:, j] - W @ (W.conj().T @ V[:, j])
            ctx.expect(np.abs(rest).max() <= 1e-7 * (1 + np.abs(V).max()), "span", "vector %d is not in the span of the first "
                       "%d orthonormalised ones" % (j + 1, j + 1))
            ctx.expect(np.vdot(Q[:, j], V[:, j]).real > 0, "direction", "vector %d changed its direction" % (j + 1))
    ctx.label("d=%d" % d, "Hermitian" if case["herm"] else "general")
    ctx.nt(d > 1 and ok and np.abs(want).max() > 0)


@st.composite
def dm_spec(draw, d):
    r = draw(st.integers(1, d))
    pure = draw(st.integers(0, 2)) == 0
    basis = draw(st.integers(0, 3)) == 0
    s = []
    for _ in range(1 if pure else r):
        if basis:
            v = [0.0] * (2 * d)
            v[draw(st.integers(0, d - 1))] = 1.0
            s.append({"d": d, "v": v})
        else:
            s.append(draw(quant.state_spec(d)))
    return {"states": s, "w": [draw(gen.fl(0.1, 1.0)) for _ in s]}


def dm(s):
    w = np.array(s["w"]) / sum(s["w"])
    return sum(a * quant.proj(quant.state(x)) for a, x in zip(w, s["states"]))


def psd_sqrt(a):
    w, V = np.linalg.eigh(a)
    return (V * np.sqrt(np.clip(w, 0, None))) @ V.conj().T


def fidelity(a, b):
    """(sum of the singular values of sqrt(a) sqrt(b))^2"""
    return float(np.linalg.svd(psd_sqrt(a) @ psd_sqrt(b), compute_uv=False).sum() ** 2)


@st.composite
def states(draw):
    d = draw(st.integers(2, 4))
    return {"a": draw(dm_spec(d)), "b": draw(dm_spec(d)), "same": draw(st.integers(0, 4)) == 0, "al": [draw(gen.fl(-2, 2)), draw(
        gen.fl(-2, 2))], "raw": draw(mat_spec(d, 1))}


def check_states(case, ctx):
    import jax.numpy as jnp
    from quocslib.tools import fidelities as fi
    from quocslib.tools import operations as op
    from quocslib.utils.jax_utils import fidelity_funct
    a = dm(case["a"])
    b = a if case["same"] else dm(case["b"])
    d = len(a)
    ja, jb = jnp.asarray(a), jnp.asarray(b)
    raw = mat(case["raw"]).ravel()
    got = np.asarray(op.state_to_dm(jnp.asarray(raw)))
    ctx.expect(np.abs(got - np.outer(raw, raw.conj())).max() <= 1e-5 * (1 + np.abs(raw).max() ** 2), "density-matrix",
               lambda: "state %s gives %s" % (raw, got.tolist()))
    big = 2.7 * a
    for m, jm in ((a, ja), (big, jnp.asarray(big))):
        s = np.asarray(op._sqrtm(jm))
        ctx.expect(np.isfinite(s).all() and np.abs(s @ s - m).max() <= 1e-4, "sqrt", lambda: (
            "the square root of %s is %s, its square %s" % (m.tolist(), s.tolist(), (s @ s).tolist())))
        ctx.expect(np.abs(s - s.conj().T).max() <= 1e-4 and np.linalg.eigvalsh(0.5 * (s + s.conj().T)).min() >= -1e-3, "sqrt-psd",
                   lambda: "the square root of %s is not the positive one: %s" % (m.tolist(), s.tolist()))
    F = fidelity(a, b)
    if len(case["a"]["states"]) == 1:
        psi = quant.state(case["a"]["states"][0])
        assert abs(F - np.vdot(psi, b @ psi).real) < 1e-6
    sa, sb = op._sqrtm(ja), op._sqrtm(jb)
    f1, f2 = float(fi.fidelity_AD(sa, jb)), float(fi.fidelity_AD(sb, ja))
    ctx.expect(abs(f1 - F) <= 5e-3, "fidelity", "fidelity %r, expected %r (states %s and %s)" % (f1, F, a.tolist(), b.tolist()))
    ctx.expect(abs(f1 - f2) <= 5e-3, "symmetry", "fidelity %r one way, %r the other" % (f1, f2))
    if case["same"]:
        ctx.expect(abs(f1 - 1) <= 5e-3, "self-fidelity", "fidelity %r of a state with itself" % f1)
    root = float(fi.fidelity_not_diff_due_to_sqrtm(ja, jb))
    ctx.expect(abs(root ** 2 - F) <= 2e-2, "root-fidelity", "root fidelity %r, expected %r" % (root, np.sqrt(F)))
    h = float(fidelity_funct(ja, jb))
    want = abs(np.trace(a.conj().T @ b))
    ctx.expect(abs(h - want) <= 1e-5, "overlap", "Hilbert-Schmidt overlap %r, expected %r" % (h, want))
    alpha = complex(*case["al"])
    ann = np.diag(np.sqrt(np.arange(1.0, d + 1)), 1).astype(complex)
    D = np.asarray(op._displace(jnp.asarray(ann), alpha))
    want = expm(alpha * ann.conj().T - np.conj(alpha) * ann)
    ctx.expect(np.abs(D - want).max() <= 5e-4, "displacement", lambda: "D(%s) is %s, expected %s" % (alpha, D.tolist(), want.tolist()))
    ctx.expect(np.abs(D @ D.conj().T - np.eye(d + 1)).max() <= 5e-4, "displacement-unitary", "D(%s) is not unitary" % alpha)
    ctx.label("d=%d" % d, "same" if case["same"] else "different")
    ctx.nt(case["same"] or 0.01 < F < 0.99)


@st.composite
def ptrace(draw):
    # a few structures, so that the compiled functions are shared
    dims = draw(st.sampled_from([[2, 3], [3, 2], [2, 2, 3], [3, 1, 2], [2, 3, 2], [4], [2, 2, 2, 2],
                                 [2, 1, 2, 2, 2], [2, 2, 3, 1, 2], [1, 2, 2, 1, 2, 2]]))
    n = len(dims)
    over = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n))
    N = int(np.prod(dims))
    return {"dims": dims, "over": over, "tuple": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)),
            "factors": draw(st.booleans()), "N": N}


def check_ptrace(case, ctx):
    import jax.numpy as jnp
    from quocslib.tools.partial_trace import jax_partial_trace_transform
    dims, over, N = case["dims"], case["over"], case["N"]
    n = len(dims)
    rng = np.random.RandomState(case["seed"])
    parts = [rng.uniform(-1, 1, (k, k)) + 1j * rng.uniform(-1, 1, (k, k)) for k in dims]
    if case["factors"]:
        rho = np.ones((1, 1))
        for m in parts:
            rho = np.kron(rho, m)
    else:
        rho = rng.uniform(-1, 1, (N, N)) + 1j * rng.uniform(-1, 1, (N, N))
    t = tuple(over) if case["tuple"] else list(over)
    f = jax_partial_trace_transform(tuple(dims) if case["tuple"] else list(dims), t)
    got = np.asarray(f(jnp.asarray(rho)))
    # direct index contraction
    row = list(range(n))
    col = [i if i in over else n + i for i in range(n)]
    keep = [i for i in range(n) if i not in over]
    want = np.einsum(rho.reshape(dims * 2), row + col, keep + [n + i for i in keep])
    k = int(np.prod([dims[i] for i in keep])) if keep else 1
    want = want.reshape(k, k)
    if case["factors"]:
        alt = np.ones((1, 1)) * np.prod([np.trace(parts[i]) for i in over] + [1.0])
        for i in keep:
            alt = np.kron(alt, parts[i])
        assert np.abs(alt - want).max() <= 1e-9 * (1 + np.abs(want).max())
    tol = 1e-4 * (1 + np.abs(want).max())
    ctx.expect(got.shape == want.shape, "shape", "dimensions %s, traced over %s: shape %s, expected %s" % (dims, over, got.shape, want.shape))
    ctx.expect(np.abs(got - want).max() <= tol, "partial-trace", lambda: "dimensions %s, traced over %s: %s, expected %s" % (
        dims, over, got.tolist(), want.tolist()))
    ctx.expect(abs(np.trace(got) - np.trace(rho)) <= 1e-3 * (1 + abs(np.trace(rho))), "trace", "the trace is not preserved")
    for bad in ([n], [-1]):
        try:
            jax_partial_trace_transform(list(dims), bad)
        except ValueError:
            continue
        ctx.fail("position", "tracing over the position %d of %d subsystems is accepted" % (bad[0], n))
    ctx.label("%d subsystems" % n, "%d traced" % len(over))
    ctx.nt(0 < len(over) < n)


FAMILIES = [Family("algebra", algebra, check_algebra, 4000, 60000, rule="dimension above one, independent vectors, non-zero commutator"),
            Family("states", states, check_states, 400, 6000, rule="equal states, or a fidelity strictly between 0 and 1"),
            Family("partial-trace", ptrace, check_ptrace, 240, 4000, rule="some subsystems are traced over and some are kept")]
