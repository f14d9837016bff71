"""C03: the grand-canonical ensemble honours the prescribed activities."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib import solve as Sv
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Grand-canonical runs of random mixtures: in each recorded step the compositions are compared with activity times Boltzmann factor of the "
        "fields used; converged results are compared with the prescribed exchange potentials (constraint directions projected out), including "
        "multi-phase states made from canonical runs; ensemble objects made from potentials, scalars, lists and changed by setters are compared "
        "with their definition. Non-trivial: a comparison in a living compartment; distinct by mixture structure and outcome.")
ASSUMPTIONS = ["bound on converged exchange potentials: 4 tolerances (2 follow from the definition of the field residual)"]


def trace(ctx, rng, i):
    mix = X.rand_mix(rng, ens="gc")
    if i % 2:
        mix = mix.copy(M=max(3, mix.M), ub=float(rng.choice([0.05, 0.3])), aJ=float(rng.choice([0.05, 0.5])), thr=float(rng.choice([0.0, 0.2, 0.5])),
                       revive=int(rng.choice([0, 1, 3])), std=1.0)
    if rng.random() < 0.15:
        mix.ev[rng.integers(mix.N)] = 0.0
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    rec.finder.reinitialize_from_omegas(w)
    n = int(rng.integers(1, 25))
    ctx.describe(mix=mix.describe(), steps=n)
    try:
        ph, steps = rec.run(max_steps=n, interval=int(rng.choice([1, 4, n])), tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    seen = 0
    for k, v in enumerate(Mon.step_views(steps)):
        if not (np.isfinite(v["w"]).all() and np.isfinite(v["J"]).all()):
            return ctx.obs("diverged")
        live = v["J"] > mix.thr
        want = mix.ev[:, None] * np.exp(-mix.sizes[:, None] * v["w"][mix.feat])
        if not want.max() < 1e150:
            return ctx.obs("diverged")
        ctx.close(v["phi"][:, live], want[:, live], f"step {k}: fractions are not activity times Boltzmann factor", rtol=1e-10, atol=1e-300)
        ctx.ok(np.all(v["phi"][:, ~live] == 0), f"step {k}: a dead compartment contains material")
        ctx.obs("steps_with_dead" if (~live).any() else "steps_all_alive")
        seen += int(live.sum())
    F, V = np.asarray(ph.fractions), np.asarray(ph.volumes)
    if np.isfinite(F).all():  # every returned composition is one of the last step
        last = v["phi"][:, live].T
        d = np.abs(F[:, None] - last[None]).max(-1) / (1e-12 + np.abs(last).max(-1))[None]
        if np.isfinite(V).all() and live.any():
            ctx.ok(np.all(d.min(1) < 1e-9), "a returned composition is not one of the last step")
    ctx.nontrivial(mix.signature(), seen, n)


def exchange_error(mix, F):
    use = mix.ev > 0
    E = np.log(F[:, use] / mix.ev[use]) / mix.sizes[use] + (F @ mix.chi_full)[:, use]
    D = [np.ones((1, use.sum()))] + [c.Cs[:, mix.feat][:, use] for c in mix.cons]
    q = np.linalg.svd(np.vstack(D).T, full_matrices=False)
    q = q[0][:, q[1] > 1e-9]
    E = E - (E @ q) @ q.T
    return np.abs(E).max()


def judge(ctx, mix, ph, tol):
    F = np.asarray(ph.fractions)
    err = exchange_error(mix, F)
    ctx.ok(err < 4 * tol + 1e-9, "converged exchange chemical potentials are not the prescribed ones", difference=err, tolerance=tol)
    ctx.peak("exchange_error/tol", err / tol)
    ctx.obs("converged")
    n = Sv.phases_seen(F)
    if n > 1:
        ctx.obs("converged_multiphase")
    ctx.nontrivial("converged", mix.signature(), n, round(tol, 9))


def solve(ctx, rng, i):
    kinds = [(), ("local",), ("global",)][rng.choice(3, p=[0.6, 0.2, 0.2])]
    block = bool(rng.random() < 0.4)
    mix = Sv.constrained(rng, "gc", block, kinds) if kinds else Sv.solvable(rng, "gc", block)
    tol = float(10 ** rng.uniform(-6, -2.5))
    ctx.describe(mix=mix.describe(), tol=tol)
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), tol, max_steps=4000, interval=int(rng.choice([10, 50])))
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, mix, ph, tol)


def transfer(ctx, rng, i):
    """Multi-phase states: activities from a canonical run, given as activities or potentials."""
    mix = Sv.solvable(rng, "can", bool(rng.random() < 0.4))
    mix = mix.copy(chi=mix.chi + 2.0 * (1 - np.eye(mix.S)))
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), 1e-6, max_steps=5000, interval=100)
    if not conv:
        return ctx.obs("not_converged")
    F, w = np.asarray(ph.fractions), f.omegas.copy()
    a = np.median(F.T * np.exp(mix.sizes[:, None] * w[mix.feat]), axis=1)
    gc = mix.copy(ens="gc", ev=a, revive=0)
    parts = {}
    how = int(rng.integers(3))
    if how == 0:
        parts["ensemble"] = flory.GrandCanonicalEnsemble.from_chemical_potential(gc.N, np.log(a / gc.sizes) / gc.sizes, gc.sizes)
    elif how == 1:
        parts["ensemble"] = flory.GrandCanonicalEnsemble(gc.N, np.ones(gc.N))
        parts["ensemble"].scaled_activity = a
    g = gc.finder(5, parts)
    g.reinitialize_from_omegas(w)
    tol = float(10 ** rng.uniform(-4.5, -3))
    ctx.describe(mix=gc.describe(), tol=tol, how=how)
    g, ph2, conv = Sv.run(gc, None, tol, max_steps=2000, interval=10, finder=g)
    if conv:
        judge(ctx, gc, ph2, tol)
        ctx.obs("transferred")


def ensembles(ctx, rng, i):
    """Definition of ensembles from potentials and setters, as seen by the solver."""
    N = int(rng.integers(1, 7)) if rng.random() < 0.9 else int(rng.integers(7, 20))
    mus, sizes = rng.normal(0, rng.choice([0.3, 1.0, 3.0]), N), rng.uniform(0.2, 4, N)
    if rng.random() < 0.4:  # large and small molecules
        sizes = 10 ** rng.uniform(-2, 2.5, N)
        mus = rng.uniform(-12, 8, N) / sizes.max()
    k = int(rng.integers(6))
    if k == 0:
        arg, full_mu = mus, mus
    elif k == 1:
        arg, full_mu = mus.tolist(), mus
    elif k == 2:
        arg = float(mus[0])
        full_mu = np.full(N, mus[0])
    elif k == 3:
        arg = int(rng.integers(-2, 3))
        full_mu = np.full(N, float(arg))
    elif k == 4:
        arg = rng.integers(-2, 3, N)
        full_mu = arg.astype(float)
    else:
        arg, full_mu = mus[::-1][::-1], mus
    j = int(rng.integers(6))
    if j == 0:
        sarg, full_l = None, np.ones(N)
    elif j == 1:
        sarg = int(rng.integers(1, 4))
        full_l = np.full(N, float(sarg))
    elif j == 2:
        sarg = rng.integers(1, 4, N)
        full_l = sarg.astype(float)
    elif j == 3:
        sarg = float(sizes[0])
        full_l = np.full(N, sarg)
    elif j == 4:
        sarg, full_l = sizes.tolist(), sizes
    else:
        sarg, full_l = sizes, sizes
    ctx.describe(mus=arg, sizes=sarg)
    e = flory.GrandCanonicalEnsemble.from_chemical_potential(N, arg, sarg)
    want = full_l * np.exp(full_l * full_mu)

    def seen(e):
        """Activities the solver uses: compositions for zero fields."""
        M = 3
        m = X.Mix(chi=np.zeros((N, N)), sizes=np.ones(N), ncpf=np.ones(N, int), ens="gc", ev=np.ones(N), M=M)
        f = m.finder(1, {"ensemble": e})
        f.reinitialize_from_omegas(np.zeros((N, M)))
        ph = f.run(max_steps=1, tolerance=1e-300)
        F = np.asarray(ph.fractions)
        ctx.close(F, np.broadcast_to(F[0], F.shape), "equal fields give different compositions", rtol=1e-12)
        return F[0]

    ctx.close(e.scaled_activity, want, "scaled activities from chemical potentials", rtol=1e-12)
    ctx.close(seen(e), want, "activities used by the solver (from potentials)", rtol=1e-12)
    new = rng.uniform(0.1, 2, N) if rng.random() < 0.6 else 10 ** rng.uniform(-30, 1, N)
    if rng.random() < 0.2:
        new[rng.integers(N)] = 0.0  # an absent component
    form = int(rng.integers(4))
    val = [new, new.tolist(), float(new[0]), 2][form]
    full = [new, new, np.full(N, new[0]), np.full(N, 2.0)][form]
    e.scaled_activity = val
    ctx.close(seen(e), full, "activities used by the solver after the setter", rtol=1e-12, atol=0)
    e3 = flory.GrandCanonicalEnsemble(N, [1, np.ones(N, int), np.ones(N, np.float32), np.full(N, 0.3)][rng.integers(4)])
    e3.scaled_activity = val
    ctx.close(seen(e3), full, "activities used by the solver after replacing others", rtol=1e-12, atol=0)
    e2 = flory.GrandCanonicalEnsemble(N, val)
    ctx.close(seen(e2), full, "activities used by the solver from the constructor", rtol=1e-12, atol=0)
    ctx.obs("ensembles")
    ctx.nontrivial("ensemble", N, k, j, form)


def jit(ctx, rng, i):
    """Machine code, from outside: compositions after a single step from known fields."""
    mix = X.rand_mix(rng, ens="gc", block=ctx.shard % 2 == 1, cons=False)
    f = mix.finder(int(rng.integers(1 << 30)))
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    f.reinitialize_from_omegas(w)
    ctx.describe(mix=mix.describe())
    for k in range(6):
        w = f.omegas.copy()
        ph = f.run(max_steps=1, tolerance=1e-300)
        F = np.asarray(ph.fractions)
        want = (mix.ev[:, None] * np.exp(-mix.sizes[:, None] * w[mix.feat])).T
        if not np.isfinite(want).all() or want.max() > 1e100:
            break
        if np.isfinite(F).all() and f.diagnostics["revive_count_left"] == mix.revive * mix.M and np.unique(F, axis=0).shape[0] == mix.M:
            # all compartments alive so far
            ctx.close(F, want, f"compositions of single step {k}", rtol=1e-9, atol=1e-300)
            ctx.obs("jit_steps")
        else:
            break
    ctx.nontrivial("jit", mix.signature(), k)


SUITES = [
    Suite("jit", "jit", jit, quick=400, thorough=8000, shards=2, shards_thorough=4, need=["jit_steps"]),
    Suite("trace", "py", trace, quick=1500, thorough=24000, shards=4, shards_thorough=8, need=["steps_with_dead", "steps_all_alive"]),
    Suite("solve", "py", solve, quick=120, thorough=3000, shards=3, shards_thorough=8, need=["converged"]),
    Suite("transfer", "py", transfer, quick=70, thorough=1500, shards=2, shards_thorough=8, need=["converged_multiphase", "transferred"]),
    Suite("ensembles", "py", ensembles, quick=500, thorough=5000, shards=1, shards_thorough=4, need=["ensembles"]),
]
