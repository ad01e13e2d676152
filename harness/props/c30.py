"""C30: piecewise evolution against an independent matrix exponential, and its composition laws."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, quant
from ..engine import Family
from quocslib.timeevolution.piecewise_integrator import pw_evolution, pw_final_evolution


def expm(M):
    """Scaling and squaring with a Taylor series, independent of the library's routine."""
    s = max(0, int(np.ceil(np.log2(max(np.linalg.norm(M, 1), 1e-300)))) + 3)
    A = M / 2.0 ** s
    out = term = np.eye(len(M), dtype=complex)
    for k in range(1, 25):
        term = term @ A / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


@st.composite
def strategy(draw, dmax=4, nmax=7, kmax=3, hermitian=None):
    d, n, K = draw(st.integers(1 if dmax > 3 else 2, dmax)), draw(st.integers(1, nmax)), draw(st.integers(0 if kmax > 2 else 1, kmax))
    herm = draw(st.integers(0, 3)) > 0 if hermitian is None else hermitian
    big = draw(st.sampled_from([1.0, 1.0, 8.0]))
    mat = quant.herm_spec(d) if herm else st.fixed_dictionaries({"d": st.just(d), "v": st.lists(
        gen.fl(-1, 1), min_size=2 * d * d, max_size=2 * d * d), "any": st.just(True)})
    return {"A": draw(mat), "B": [draw(mat) for _ in range(K)], "herm": herm, "dt": draw(gen.fl(0.001, 1.5)), "n": n,
            "drive": [draw(st.lists(gen.fl(-big, big), min_size=n, max_size=n)) for _ in range(K)],
            "U0": draw(st.sampled_from(["identity", "unitary", "vector", "rho"])), "u": draw(quant.herm_spec(d)),
            "extra": draw(st.integers(0, 2)), "cut": draw(st.integers(0, n)), "real": draw(st.booleans()) and not herm,
            "store": draw(st.sampled_from(["list", "array"]))}


def matrix(s):
    if s.get("any"):
        v = np.array(s["v"])
        h = len(v) // 2
        return (v[:h] + 1j * v[h:]).reshape(s["d"], s["d"])
    return quant.herm(s)


def setup(case):
    A, B = matrix(case["A"]), [matrix(b) for b in case["B"]]
    if case["real"]:
        A, B = A.real.copy(), [b.real.copy() for b in B]
    d, n = len(A), case["n"]
    drive = np.array(case["drive"], float).reshape(len(B), n)
    u = expm(-1j * quant.herm(case["u"]))
    U0 = {"identity": np.eye(d, dtype=complex), "unitary": u, "vector": u[:, 0].copy(), "rho": u @ np.diag(np.arange(1.0, d + 1))}[
        case["U0"]]
    steps = []
    for i in range(n):
        H = A.astype(complex)
        for k in range(len(B)):
            H = H + drive[k, i] * B[k]
        steps.append(expm(-1j * case["dt"] * H))
    return A, B, drive, U0, steps


def unchanged(ctx, names, now, then):
    for name, a, b in zip(names, now, then):
        ctx.expect(np.array_equal(a, b), "modified", "%s was modified" % name)


def product(steps, U0):
    for U in steps:
        U0 = U @ U0
    return U0


def check(case, ctx):
    A, B, drive, U0, steps = setup(case)
    n, dt, d = case["n"], case["dt"], len(A)
    keep = [A.copy()] + [b.copy() for b in B] + [drive.copy(), U0.copy()]
    names = ["the drift"] + ["a control Hamiltonian"] * len(B) + ["the drive", "the start"]
    rng = np.random.RandomState(3)
    store = [rng.rand(d, d) + 0j for _ in range(n + case["extra"])]      # left over from an earlier evolution
    if case["store"] == "array":
        store = np.array(store)
    wide = np.concatenate([drive, np.full((len(B), case["extra"]), 7.0)], axis=1)
    out = pw_evolution(store, wide, A, B, n, dt)
    scale = max(np.abs(s).max() for s in steps)
    for i in range(n):
        ctx.expect(np.abs(np.asarray(out[i]) - steps[i]).max() <= 1e-9 * max(1, scale), "step", lambda: (
            "slice %d of %d: propagator %s, expected %s" % (i + 1, n, np.asarray(out[i]).tolist(), steps[i].tolist())))
        if case["herm"]:
            U = np.asarray(out[i])
            ctx.expect(np.abs(U @ U.conj().T - np.eye(d)).max() <= 1e-10, "unitary", "slice %d is not unitary" % (i + 1))
    unchanged(ctx, names, [A] + B + [drive, U0], keep)
    want = product(steps, U0)
    mag = max(1.0, np.abs(want).max()) * max(1.0, scale) ** n
    got = pw_final_evolution(drive, A, B, n, dt, U0)
    ctx.expect(np.shape(got) == want.shape and np.abs(got - want).max() <= 1e-8 * mag, "final", lambda: (
        "final evolution %s, expected %s" % (np.asarray(got).tolist(), want.tolist())))
    unchanged(ctx, names, [A] + B + [drive, U0], keep)
    ctx.expect(np.abs(product([np.asarray(out[i]) for i in range(n)], U0) - got).max() <= 1e-8 * mag, "product",
               "the final evolution is not the ordered product of the steps")
    c = case["cut"]
    first = pw_final_evolution(drive[:, :c], A, B, c, dt, U0)
    both = pw_final_evolution(drive[:, c:], A, B, n - c, dt, first)
    ctx.expect(np.abs(both - got).max() <= 1e-8 * mag, "composition", "evolving %d and then %d slices differs from evolving %d" % (
        c, n - c, n))
    if case["herm"]:
        back = pw_final_evolution(-drive[:, ::-1], -A, B, n, dt, got)
        ctx.expect(np.abs(back - U0).max() <= 1e-8 * mag, "reversal", "evolving back does not return to the start")
    ctx.label("d=%d" % d, "%d controls" % len(B), "Hermitian" if case["herm"] else "general")
    comm = max([np.abs(s @ t - t @ s).max() for s, t in zip(steps, steps[1:])] + [0.0])
    ctx.nt(comm > 1e-3)


def jax_check(case, ctx):
    import jax.numpy as jnp
    from quocslib.timeevolution.piecewise_integrator_AD import pw_evolution_AD, pw_final_evolution_AD
    A, B, drive, U0, steps = setup(case)
    n, dt, d = case["n"], case["dt"], len(A)
    if U0.ndim == 1:
        U0 = np.eye(d, dtype=complex)
    a, b, u = jnp.asarray(drive), [jnp.asarray(x) for x in B], jnp.asarray(U0)
    # the matrix exponential of jax in single precision is off by up to 3e-5 times the norm of its argument
    norms = [dt * np.abs(A + sum(drive[k, i] * B[k] for k in range(len(B)))).sum(axis=0).max() for i in range(n)]
    tol = (3e-4 + 1e-4 * sum(norms)) * max(1.0, np.abs(U0).max())
    want = product(steps, U0)
    got = np.asarray(pw_final_evolution_AD(a, jnp.asarray(A), b, n, dt, u))
    ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= tol, "final", lambda: (
        "final evolution %s, expected %s" % (got.tolist(), want.tolist())))
    if n <= 4:
        store = jnp.ones((n + case["extra"], d, d), dtype=complex)
        out = np.asarray(pw_evolution_AD(store, a, jnp.asarray(A), b, n, dt))
        for i in range(n):
            ctx.expect(np.abs(out[i] - steps[i]).max() <= tol, "step", lambda: "slice %d of %d: propagator %s, expected %s" % (
                i + 1, n, out[i].tolist(), steps[i].tolist()))
    c = case["cut"]
    if 0 < c < n:
        both = np.asarray(pw_final_evolution_AD(a[:, c:], jnp.asarray(A), b, n - c, dt, pw_final_evolution_AD(
            a[:, :c], jnp.asarray(A), b, c, dt, u)))
        ctx.expect(np.abs(both - want).max() <= tol, "composition", "evolving %d and then %d slices differs from evolving %d" % (
            c, n - c, n))
    comm = max([np.abs(s @ t - t @ s).max() for s, t in zip(steps, steps[1:])] + [0.0])
    ctx.nt(comm > 1e-2)


RULE = "two neighbouring slices do not commute"
FAMILIES = [Family("numpy", strategy, check, 4000, 60000, rule=RULE),
            Family("jax", lambda: strategy(dmax=3, nmax=5, kmax=2, hermitian=True), jax_check, 160, 3000, rule=RULE)]
