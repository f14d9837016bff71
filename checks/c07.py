"""C07: stability analysis reflects the true curvature of the free energy."""
import numpy as np

from lib import energies as En
from lib import mix as X
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Random free energies and batches of positive compositions of 0 to 3 batch dimensions; Hessians are compared with independent formulas and "
        "with finite differences of the library's Jacobian and energy, unstable modes with the inertia of the independently projected curvature for "
        "every dependent component. Non-trivial: every case; distinct by kind of energy, components, batch shape, dependent component and modes.")
ASSUMPTIONS = ["compositions are positive (the curvature diverges for absent components)",
               "modes with an eigenvalue closer to zero than 1e-7 of the largest one (1e-11 in the mixtures placed next to the spinodal or with nearly absent components) are not judged"]


def inertia(H, near=1e-7):
    """Number of negative eigenvalues, None if one is close to zero."""
    if H.shape[-1] == 0:
        return 0
    ev = np.linalg.eigvalsh(0.5 * (H + H.T))
    if np.abs(ev).min() < near * np.abs(ev).max():
        return None
    return int((ev < 0).sum())


def tangent(N):
    """Orthonormal basis of the directions that conserve volume."""
    q, _ = np.linalg.qr(np.hstack([np.ones((N, 1)), np.eye(N)[:, : N - 1]]))
    return q[:, 1:]


def curvature(ctx, rng, i):
    fe, ref, how = En.make(rng, maxN=7)
    N = ref.N
    p = En.compositions(rng, N, positive=True, small=True)
    sh = p.shape[:-1]
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes, cubic=ref.cubic, phis=p)
    before = p.copy()
    small = bool(p.size and p.min() < 1e-3 / N)  # the curvature spans many orders of magnitude
    near = 1e-11 if small else 1e-7
    ctx.obs("nearly_absent", small)
    h = fe.hessian(p)
    ctx.close(h, ref.hessian(p), "hessian", rtol=1e-10, atol=1e-10)
    ctx.ok(np.array_equal(h, np.swapaxes(h, -1, -2)) or np.allclose(h, np.swapaxes(h, -1, -2), rtol=1e-12, atol=1e-12), "hessian is not symmetric")
    flat = p.reshape(-1, N)
    for index in {0, -1, int(rng.integers(-N, N))}:
        hr = fe.hessian(p, index)
        want = np.array([ref.reduced_hessian(q, index) for q in flat]).reshape(sh + (N - 1, N - 1))
        ctx.close(hr, want, "hessian with a dependent component", rtol=1e-9, atol=1e-9, index=index)
        ctx.obs("reduced_hessians")
    T = tangent(N)
    n1, n0 = fe.num_unstable_modes(p), fe.num_unstable_modes(p, conserved=False)
    s1, s0 = fe.is_stable(p), fe.is_stable(p, conserved=False)
    for a, name in ((n1, "num_unstable_modes"), (n0, "num_unstable_modes (not conserved)"), (s1, "is_stable"), (s0, "is_stable (not conserved)")):
        ctx.ok(np.shape(a) == sh, f"{name} does not report each composition", got=np.shape(a), expected=sh)
    for k, q in zip(np.ndindex(*sh) if sh else [()], flat):
        H = ref.hessian(q)
        w1, w0 = inertia(T.T @ H @ T, near), inertia(H, near)
        if w1 is not None:
            ctx.ok(np.asarray(n1)[k] == w1, "number of unstable modes", got=np.asarray(n1)[k], expected=w1, at=q)
            ctx.ok(bool(np.asarray(s1)[k]) == (w1 == 0), "is_stable disagrees with the curvature", at=q)
            ctx.obs("unstable" if w1 else "stable")
            for index in range(N):  # independent of the eliminated component
                ctx.ok(inertia(np.asarray(fe.hessian(q, index)), near) in (w1, None), "inertia depends on the eliminated component", index=index)
        if w0 is not None:
            ctx.ok(np.asarray(n0)[k] == w0, "number of unstable modes (not conserved)", got=np.asarray(n0)[k], expected=w0, at=q)
            ctx.ok(bool(np.asarray(s0)[k]) == (w0 == 0), "is_stable (not conserved) disagrees with the curvature", at=q)
        ctx.nontrivial(how, N, sh, w1, w0)
    ctx.ok(np.array_equal(p, before), "stability analysis modified its input")
    if len(sh) and p.size:
        k = tuple(int(rng.integers(s)) for s in sh)
        ctx.close(h[k], fe.hessian(p[k].copy()), "batch and single hessian", rtol=1e-12, atol=1e-12)
        ctx.ok(np.asarray(n1)[k] == fe.num_unstable_modes(p[k].copy()), "batch and single number of unstable modes")
        ctx.obs("batches")


def derivative(ctx, rng, i):
    """Finite differences of the library's own Jacobian and energy."""
    fe, ref, how = En.make(rng)
    N = ref.N
    p = np.array(rng.dirichlet(np.ones(N)) * 0.9 + 0.1 / N) * rng.uniform(0.6, 1.3)
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes, phis=p)
    H = fe.hessian(p)
    e = np.eye(N)
    for k in range(N):
        s = 1e-5 * p[k]
        num = (fe.jacobian(p + s * e[k]) - fe.jacobian(p - s * e[k])) / (2 * s)
        ctx.close(H[k], num, "hessian is not the derivative of the jacobian", rtol=0, atol=1e-6 * (1 + np.abs(H).max()))
    if N > 1:
        index = int(rng.integers(-N, N))
        Hr = fe.hessian(p, index)
        keep = np.delete(np.arange(N), index)
        for n, k in enumerate(keep):
            s = 1e-5 * min(p[k], p[index])
            d = e[k] - e[index]
            num = (fe.jacobian(p + s * d, index) - fe.jacobian(p - s * d, index)) / (2 * s)
            ctx.close(Hr[n], num, "reduced hessian is not the derivative of the reduced jacobian", rtol=0, atol=1e-6 * (1 + np.abs(Hr).max()))
        # curvature of the energy along a random allowed direction
        v = rng.normal(size=N)
        v -= v.mean()
        s = 1e-3 * (p / np.abs(v)).min()
        f = fe.free_energy_density
        num = (f(p + s * v) - 2 * f(p) + f(p - s * v)) / s**2
        vr = np.delete(v, index)
        val = vr @ Hr @ vr
        ctx.ok(abs(val - num) < 1e-4 * (np.abs(vr) @ np.abs(Hr) @ np.abs(vr) + np.abs(v) @ np.abs(H) @ np.abs(v)) + 1e-6 * np.abs(f(p)) / s**2 * 1e-8, "curvature along an allowed direction", got=val, expected=num)
        ctx.obs("directions")
    ctx.obs("derivatives", N)
    ctx.nontrivial("derivative", how, N)


def spinodal(ctx, rng, i):
    """Mixtures a chosen tiny distance away from the loss of stability."""
    N = int(rng.integers(2, 7))
    sizes = X.rand_sizes(rng, N)
    p = 0.05 / N + 0.95 * rng.dirichlet(np.ones(N))
    chi = X.rand_chi(rng, N)
    conserved = bool(rng.random() < 0.6)
    T = tangent(N) if conserved else np.eye(N)
    H = T.T @ X.hessian(chi, sizes, p) @ T
    ev = np.linalg.eigvalsh(H)
    scale = np.abs(ev).max() + np.abs(chi).max() + np.abs(np.diag(1 / (p * sizes))).max()
    # adding c to the diagonal of chi shifts all curvatures by c: the n-th one becomes eps
    n = int(rng.integers(len(ev)))
    eps = float(10 ** rng.uniform(-11, -1)) * float(rng.choice([-1, 1])) * scale
    chi = chi + (eps - ev[n]) * np.eye(N)
    ctx.describe(N=N, chi=chi, sizes=sizes, phis=p, conserved=conserved, eps=eps)
    ev = np.linalg.eigvalsh(T.T @ X.hessian(chi, sizes, p) @ T)
    # a hundred times the error of the two eigenvalue computations, which also holds for the reduced Hessian (congruent with condition below N^2)
    if np.abs(ev).min() < 3e-13 * N**2 * (np.abs(ev).max() + scale):
        ctx.obs("too_close")
        return
    want = int((ev < 0).sum())
    fe = flory.FloryHuggins(N, chi, sizes)
    got = fe.num_unstable_modes(p, conserved=conserved)
    ctx.ok(int(got) == want, "number of unstable modes near the spinodal", got=int(got), expected=want, eigenvalues=ev)
    ctx.ok(bool(fe.is_stable(p, conserved=conserved)) == (want == 0), "is_stable near the spinodal", eigenvalues=ev)
    ctx.obs("near_spinodal_stable" if want == 0 else "near_spinodal_unstable")
    ctx.peak("-log10 of the smallest relative curvature", -np.log10(np.abs(ev).min() / scale))
    ctx.nontrivial("spinodal", N, conserved, n, int(np.log10(abs(eps) / scale)), eps > 0)


SUITES = [
    Suite("curvature", "jit", curvature, quick=5000, thorough=80000, shards=5, shards_thorough=8, need=["stable", "unstable", "batches", "reduced_hessians"]),
    Suite("spinodal", "jit", spinodal, quick=6000, thorough=60000, shards=1, shards_thorough=8, need=["near_spinodal_stable", "near_spinodal_unstable"]),
    Suite("derivative", "jit", derivative, quick=5000, thorough=80000, shards=3, shards_thorough=8, need=["derivatives", "directions"]),
]
