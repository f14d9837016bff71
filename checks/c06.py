"""C06: free-energy analysis functions are consistent with each other."""
import numpy as np

from lib import energies as En
from lib.engine import Suite

RULE = ("Random free energies (constructors, setters, grouped, uniform, user-defined interaction) and random batches of compositions of 0 to 3 batch "
        "dimensions with and without absent components; every analysis function is compared with independent formulas, finite differences of the "
        "library's own energy, its defining relation, and its single-composition values. Non-trivial: every case; distinct by kind of energy, "
        "number of components, batch shape and dependent component.")
ASSUMPTIONS = ["a single composition may be reported with an extra leading dimension of length one"]


def fit(a, shape):
    """Accept an extra leading dimension of length one for single compositions."""
    a = np.asarray(a)
    return a[0] if a.shape == (1,) + tuple(shape) else a


def frozen(ctx, fe, p):
    before = p.copy()
    state = [np.array(getattr(o, n)).copy() for o, n in ((fe.interaction, "chis"), (fe.entropy, "sizes")) if hasattr(o, n)]

    def check(what):
        ctx.ok(np.array_equal(p, before, equal_nan=True), f"{what} modified its input")
        now = [np.array(getattr(o, n)) for o, n in ((fe.interaction, "chis"), (fe.entropy, "sizes")) if hasattr(o, n)]
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(state, now)), f"{what} modified the parameters")

    return check


def values(ctx, rng, i):
    fe, ref, how = En.make(rng)
    N = ref.N
    p = En.compositions(rng, N)
    index = int(rng.integers(-N, N))
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes, cubic=ref.cubic, phis=p, index=index)
    check = frozen(ctx, fe, p)
    sh = p.shape[:-1]
    tol = dict(rtol=1e-10, atol=1e-10)
    f = fe.free_energy_density(p)
    ctx.close(f, ref.energy(p), "free energy density", **tol)
    check("free_energy_density")
    j = fe.jacobian(p)
    ctx.close(j, ref.jacobian(p), "jacobian", **tol)
    check("jacobian")
    jr = fe.jacobian(p, index)
    jw = np.delete(ref.jacobian(p), index, axis=-1) - ref.jacobian(p)[..., index, None]
    with_solvent = np.all(p[..., index] > 0) if p.size else True
    if with_solvent:
        ctx.close(jr, jw, "jacobian with a dependent component", **tol)
        x = fe.exchange_chemical_potentials(p, index)
        ctx.close(np.delete(x, index, axis=-1), jw, "exchange chemical potentials", **tol)
        ctx.ok(np.all(x[..., index] == 0), "exchange chemical potential of the solvent is not zero")
        ctx.obs("with_dependent")
    else:
        ctx.ok(jr.shape == jw.shape, "shape of the jacobian with a dependent component")
    check("exchange_chemical_potentials")
    m = fit(fe.chemical_potentials(p), p.shape)
    ctx.close(m, ref.mus(p), "chemical potentials", **tol)
    check("chemical_potentials")
    pm = np.where(p > 0, p * np.where(p > 0, m, 0.0), 0.0)
    if p.size and abs(p.sum(-1) - 1).max() < 1e-9:
        ctx.close(pm.sum(-1), f, "Euler relation sum phi mu = f", rtol=1e-9, atol=1e-9)
        ctx.obs("euler")
    pr = fit(fe.pressure(p, index), sh)
    ctx.close(pr, -ref.mus(p)[..., index], "osmotic pressure", **tol)
    check("pressure")
    if p.size and (p == 0).any():
        ctx.ok(np.isfinite(f).all(), "free energy with absent components is not finite")
        ctx.ok(np.isfinite(m[p > 0]).all() and np.isfinite(j[p > 0]).all(), "absent components spoil the values of others")
        ctx.obs("with_absent")
    # batch against single compositions
    if len(sh) and p.size:
        k = tuple(int(rng.integers(s)) for s in sh)
        q = p[k].copy()
        ctx.close(f[k], fe.free_energy_density(q), "batch and single free energy", rtol=1e-12, atol=1e-12)
        ctx.close(j[k], fe.jacobian(q), "batch and single jacobian", rtol=1e-12, atol=1e-12)
        ctx.close(m[k], fit(fe.chemical_potentials(q), (N,)), "batch and single chemical potentials", rtol=1e-12, atol=1e-12)
        if with_solvent:
            ctx.close(jr[k], fe.jacobian(q, index), "batch and single reduced jacobian", rtol=1e-12, atol=1e-12)
            ctx.close(x[k], fe.exchange_chemical_potentials(q, index), "batch and single exchange potentials", rtol=1e-12, atol=1e-12)
        ctx.close(pr[k], fit(fe.pressure(q, index), ()), "batch and single pressure", rtol=1e-12, atol=1e-12)
        ctx.obs("batches")
    ctx.nontrivial(how, N, sh, index)


def derivative(ctx, rng, i):
    """The jacobian is the derivative of the library's own energy, pressures are Legendre transforms."""
    fe, ref, how = En.make(rng)
    N = ref.N
    p = np.array(rng.dirichlet(np.ones(N)) * 0.9 + 0.1 / N) * rng.uniform(0.6, 1.3)
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes, phis=p)
    h = 1e-5 * p
    num = np.array([(fe.free_energy_density(p + h[k] * np.eye(N)[k]) - fe.free_energy_density(p - h[k] * np.eye(N)[k])) / (2 * h[k]) for k in range(N)])
    scale = 1 + np.abs(num).max()
    ctx.close(fe.jacobian(p), num, "jacobian is not the derivative of the energy", rtol=0, atol=1e-6 * scale)
    if N > 1:
        index = int(rng.integers(-N, N))
        p = p / p.sum()
        keep = np.delete(np.arange(N), index)
        e = np.eye(N)
        jr = fe.jacobian(p, index)
        for n, k in enumerate(keep):
            d = e[k] - e[index]
            s = 1e-5 * min(p[k], p[index])
            num = (fe.free_energy_density(p + s * d) - fe.free_energy_density(p - s * d)) / (2 * s)
            ctx.close(jr[n], num, "reduced jacobian is not the constrained derivative", rtol=0, atol=1e-5 * scale)
        # osmotic pressure of the solvent: sum phi_j df/dphi_j - f in the reduced description
        want = (np.delete(p, index) * jr).sum() - fe.free_energy_density(p)
        ctx.close(fit(fe.pressure(p, index), ()), want, "pressure is not the Legendre transform of the energy", rtol=1e-9, atol=1e-9)
        ctx.obs("reduced_derivatives", N - 1)
    ctx.obs("derivatives", N)
    ctx.nontrivial("derivative", how, N)


def balance(ctx, rng, i):
    """Equilibration error by phase, by component and in total."""
    fe, ref, how = En.make(rng)
    N, P = ref.N, int(rng.integers(1, 7)) if rng.random() < 0.9 else int(rng.integers(7, 300))
    p = rng.dirichlet(np.ones(N), size=P)
    if rng.random() < 0.3:
        p = En.tiny(rng, p)
    if rng.random() < 0.3:
        p[:, rng.integers(N)] = 0
    if rng.random() < 0.2:
        p[:] = p[0]
    order = [None, 1, 2, np.inf][rng.choice(4)]
    axis = [0, 1, None][rng.choice(3)]
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes, phis=p, order=order, axis=axis)
    check = frozen(ctx, fe, p)
    m = ref.mus(p)
    m = np.where(np.isfinite(m), m, 0.0)
    d = m - m.mean(0)
    if axis is None and order is None:
        want = np.sqrt((d**2).sum())
    elif axis is None:
        want = np.linalg.norm(d, ord=order)
    elif order == np.inf:
        want = np.abs(d).max(axis=axis)
    elif order == 1:
        want = np.abs(d).sum(axis=axis)
    else:
        want = np.sqrt((d**2).sum(axis=axis))
    got = fe.equilibration_error(p, order=order, axis=axis)
    ctx.close(got, want, "equilibration error", rtol=1e-9, atol=1e-10)
    if axis == 1 and order is None:
        ctx.close(fe.equilibration_error(p), want, "default equilibration error", rtol=1e-9, atol=1e-10)
    if P == 1 or np.ptp(p, axis=0).max() == 0:
        ctx.ok(np.abs(got).max() < 1e-9, "equal phases are not balanced", got=got)
    check("equilibration_error")
    ctx.obs("balances")
    ctx.nontrivial("balance", how, N, P, order, axis)


SUITES = [
    Suite("values", "jit", values, quick=20000, thorough=300000, shards=4, shards_thorough=8, need=["with_dependent", "euler", "with_absent", "batches"]),
    Suite("derivative", "jit", derivative, quick=8000, thorough=100000, shards=2, shards_thorough=8, need=["derivatives", "reduced_derivatives"]),
    Suite("balance", "jit", balance, quick=8000, thorough=100000, shards=2, shards_thorough=8, need=["balances"]),
]
