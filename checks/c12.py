"""C12: grouping components into features does not change the physics."""
import numpy as np

from lib import energies as En
from lib import mix as X
from lib import monitor as Mon
from lib import solve as So
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Random mixtures described by features are compared with the same mixtures described component by component: energies and derivatives, "
        "compositions for the same fields at every recorded step, complete evolutions (equal group sizes, where the numerical parameters can be matched "
        "exactly), and converged states of one description handed over to the other, which must accept them as converged. Non-trivial: a mixture in "
        "which some feature does not have exactly one component (or a converged state with several phases); distinct by group sizes, ensemble, constraints.")
ASSUMPTIONS = ["handed over states are judged with a bound derived from the tolerance and the incompressibility coefficients of both descriptions"]




def skewed(rng, chi):
    """Only the symmetric part of the interaction matrix matters."""
    if rng.random() < 0.6:
        return chi
    a = rng.normal(0, 1, chi.shape)
    return chi + a - a.T


def analysis(ctx, rng, i):
    S = int(rng.integers(1, 5))
    ncpf = rng.integers(0, 4, S)
    ncpf[rng.integers(S)] = rng.integers(1, 4) if rng.random() < 0.98 else rng.integers(120, 300)
    N, feat = int(ncpf.sum()), np.repeat(np.arange(S), ncpf)
    chi, sizes = X.rand_chi(rng, S), X.rand_sizes(rng, N)
    inter, ent = flory.FloryHugginsBlockInteraction(S, X.rand_chi(rng, S), ncpf), flory.IdealGasPolydispersedEntropy(S, X.rand_sizes(rng, N), ncpf)
    fe = flory.FreeEnergyBase(inter, ent)
    for k in range(int(rng.integers(1, 3))):  # repeated changes stay consistent
        chi, sizes = X.rand_chi(rng, S), X.rand_sizes(rng, N)
        inter.chis_feat = skewed(rng, chi)
        ent.sizes = sizes
    if rng.random() < 0.3:
        inter, ent = flory.FloryHugginsBlockInteraction(S, skewed(rng, chi), ncpf), flory.IdealGasPolydispersedEntropy(S, sizes, ncpf)
        fe = flory.FreeEnergyBase(inter, ent)
    ctx.describe(ncpf=ncpf, chi=chi, sizes=sizes)
    full = chi[np.ix_(feat, feat)]
    ctx.close(inter.chis, full, "expanded matrix", rtol=1e-14)
    ctx.close(inter.chis_feat, chi, "feature matrix", rtol=1e-14)
    ctx.ok(inter.num_comp == N and ent.num_comp == N and fe.num_comp == N, "number of components", got=[inter.num_comp, ent.num_comp, fe.num_comp])
    ref = flory.FloryHuggins(N, full, sizes)
    p = En.compositions(rng, N, positive=True) if N < 40 else 0.1 / N + 0.9 * rng.dirichlet(np.ones(N), size=2)
    ix = int(rng.integers(N))
    for name, fn in (("energy", lambda f: f.free_energy_density(p)), ("jacobian", lambda f: f.jacobian(p)), ("jacobian(index)", lambda f: f.jacobian(p, ix)),
                     ("hessian", lambda f: f.hessian(p)), ("hessian(index)", lambda f: f.hessian(p, ix)), ("chemical potentials", lambda f: f.chemical_potentials(p)),
                     ("exchange potentials", lambda f: f.exchange_chemical_potentials(p, ix)), ("pressure", lambda f: f.pressure(p, ix)),
                     ("unstable modes", lambda f: f.num_unstable_modes(p))):
        if p.size or name in ("energy", "jacobian", "hessian"):
            ctx.close(fn(fe), fn(ref), f"{name} of the grouped description", rtol=1e-10, atol=1e-10)
    ctx.close(ref.free_energy_density(p), X.energy(full, sizes, p), "energy", rtol=1e-9, atol=1e-10)
    ctx.obs("analysis")
    if (ncpf != 1).any():
        ctx.nontrivial("analysis", tuple(ncpf.tolist()), p.shape)
    if (ncpf == 0).any():
        ctx.obs("empty_features")


def compositions(ctx, rng, i):
    """At each step the compositions are those of the expanded mixture for the same fields."""
    mix = X.rand_mix(rng, block=True, maxM=8)
    ex = mix.expanded()
    ctx.describe(mix=mix.describe())
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    n = int(rng.integers(1, 15))
    try:
        ph, steps = rec.run(max_steps=n, interval=n, tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    for v in Mon.step_views(steps):
        mask = (v["J"] > mix.thr).astype(float)
        phi = X.fractions(ex, v["w"][mix.feat], v["J"], mask)
        if not np.isfinite(phi).all() or phi.max() > 1e6:
            return ctx.obs("diverged")
        ctx.close(v["phi"], phi, "compositions for the same fields", rtol=1e-8, atol=1e-12)
        ctx.obs("steps")
    # the library itself, in the other description, for the same fields
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    a, b = mix.finder(1), ex.finder(1)
    a.reinitialize_from_omegas(w)
    b.reinitialize_from_omegas(w[mix.feat])
    try:
        pa, pb = a.run(max_steps=1, interval=1, tolerance=1e-300), b.run(max_steps=1, interval=1, tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    if np.isfinite(pb.fractions).all() and (pa.volumes > 0).all() and mix.thr == 0 and not a_dead(a, b, mix):
        ctx.close(pa.fractions, pb.fractions, "compositions after one step", rtol=1e-8, atol=1e-12)
        for k in ("max_abs_incomp", "max_constraint_residue"):
            ctx.close(a.diagnostics[k], b.diagnostics[k], f"{k} of the same state", rtol=1e-8, atol=1e-10)
        ctx.obs("one_step")
    if (mix.ncpf != 1).any():
        ctx.nontrivial("compositions", mix.signature(), tuple(mix.ncpf.tolist()))


def a_dead(a, b, mix):
    """Could a compartment have died in the first step?"""
    return mix.ub > 0.5 or mix.M < 2


def matched(mix):
    """The expanded mixture with a shift that makes the numerics of both descriptions equal
    (for equal numbers of components in all features)."""
    ex = mix.expanded()
    k = mix.N / mix.S
    s = mix.chi.min() + ((mix.chi.sum() + (mix.shift - mix.chi.min()) * mix.S**2) / k - mix.chi.sum()) / mix.S**2
    return ex.copy(shift=float(s))


def evolution(ctx, rng, i, combo=None):
    S, k = int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(5, 10)), int(rng.integers(1, 4)) if rng.random() < 0.9 else int(rng.integers(4, 8))
    if rng.random() < 0.03:  # many components in each group
        S, k = int(rng.integers(1, 3)), int(rng.choice([60, 129, 200, 257]))
        ctx.obs("crowded")
    kw = dict(maxM=8, block=False, maxN=S)
    if combo:
        kw.update(ens=combo[0], cons=combo[1])
    base = X.rand_mix(rng, **kw)
    S = base.S
    N = S * k
    mix = base.copy(block=True, ncpf=np.full(S, k), sizes=X.rand_sizes(rng, N), ev=X.rand_simplex(rng, N) if base.ens == "can" else rng.uniform(0.05, 1.5, N) / k,
                    revive=0, thr=float(rng.choice([0.0, 0.2])))
    if rng.random() < 0.3:  # compartments die
        mix = mix.copy(M=max(3, mix.M), thr=float(rng.choice([0.3, 0.6])), ub=0.2, aJ=0.2, aw=min(mix.aw, 0.02))
    ex = matched(mix)
    ctx.describe(mix=mix.describe())
    w = rng.normal(0, mix.std, (S, mix.M))
    a, b = mix.finder(1), ex.finder(1)
    a.reinitialize_from_omegas(w)
    b.reinitialize_from_omegas(w[mix.feat])
    st = X.fresh_state(mix, w)
    n = 0
    for _ in range(int(rng.integers(1, 25))):  # avoid ambiguous deaths and divergence
        r = X.step(mix, st)
        if not Mon.finite(r, 1e4) or Mon.borderline(mix, r["next"].J, 1e-6):
            break
        st, n, last = r["next"], n + 1, r
    if n == 0:
        return ctx.obs("diverged")
    pa, pb = a.run(max_steps=n, interval=n, tolerance=1e-300), b.run(max_steps=n, interval=n, tolerance=1e-300)
    live = st.J > mix.thr
    if not live.any():
        return
    ctx.close(a.omegas[mix.feat][:, live], b.omegas[:, live], "fields of both descriptions", rtol=1e-6, atol=1e-8)
    ctx.close(pa.fractions[live], pb.fractions[live], "compositions of both descriptions", rtol=1e-6, atol=1e-9)
    if live.all():
        ctx.close(pa.volumes, pb.volumes, "volumes of both descriptions", rtol=1e-6, atol=1e-8)
    for key in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"):
        ctx.close(a.diagnostics[key], b.diagnostics[key], f"{key} of both descriptions", rtol=1e-5, atol=1e-7 * (1 + np.abs(last["le"]).max()))
    ctx.obs("evolutions")
    ctx.obs("evolutions_with_deaths", not live.all())
    ctx.obs("evolutions_many_features", mix.S > 4)
    if mix.cons:
        ctx.obs("evolutions_with_constraints")
    if k > 1:
        ctx.nontrivial("evolution", mix.signature(), k, n)


def grow(mix):
    """Bound for the residuals of a handed over state, in units of the tolerance."""
    ex = mix.expanded()
    return 20 + 4 * abs(X.incomp_coef(ex)) / ex.N + 4 * abs(X.incomp_coef(mix)) / mix.S


def transfer(ctx, rng, i):
    """A converged state of one description is converged in the other one."""
    tol = 1e-6
    mix = So.solvable(rng, ens=str(rng.choice(["can", "gc"])), block=True)
    if rng.random() < 0.7:  # phase separation is likely
        chi = rng.uniform(2.8, 4.5, (mix.S, mix.S))
        chi = np.triu(chi, 1) + np.triu(chi, 1).T
        mix = mix.copy(chi=chi, aw=0.06)
    if rng.random() < 0.2:  # a feature without components
        S = mix.S
        chi = np.zeros((S + 1, S + 1))
        chi[:S, :S] = mix.chi
        chi[S, :S] = chi[:S, S] = rng.normal(0, 1, S)
        mix = mix.copy(chi=chi, ncpf=np.append(mix.ncpf, 0))
    ex = mix.expanded()
    ctx.describe(mix=mix.describe())
    to_ex = bool(rng.random() < 0.5)
    src, dst = (mix, ex) if to_ex else (ex, mix)
    f, ph, conv = So.run(src, int(rng.integers(1 << 30)), tol, max_steps=16000)
    if not conv or len(np.unique(np.asarray(ph.fractions), axis=0)) < mix.M:
        return ctx.obs("not_converged")
    F, w = np.asarray(ph.fractions), f.omegas.copy()
    feat = mix.feat
    if to_ex:
        w2 = w[feat]
    else:
        pot = mix.chi @ X.to_features(mix, F.T)
        xi = (w - pot[feat]).mean(0)
        w2 = pot + xi
        for r in range(mix.S):
            if (feat == r).any():
                rows = w[feat == r]
                ctx.ok(np.ptp(rows, axis=0).max() < 4 * tol, "components of the same feature feel different fields", spread=np.ptp(rows, axis=0).max())
                w2[r] = rows.mean(0)
    # choose means for which equal volumes are converged
    ev = F.mean(0) if mix.ens == "can" else mix.ev
    g = dst.copy(ev=ev).finder(5)
    g.reinitialize_from_omegas(w2)
    g.run(max_steps=1, interval=1, tolerance=1e-300)
    bound = tol * grow(mix)
    for key in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
        ctx.ok(g.diagnostics[key] < bound, f"a converged state is not converged in the other description: {key}", got=g.diagnostics[key], bound=bound, to_expanded=to_ex)
        ctx.peak(key, g.diagnostics[key] / bound)
    ctx.obs("transfers")
    phases = So.phases_seen(F)
    ctx.obs("transfers_multiphase", phases > 1)
    ctx.nontrivial("transfer", mix.signature(), tuple(mix.ncpf.tolist()), to_ex, phases)


def jit(ctx, rng, i):
    evolution(ctx, rng, i, [("can", ["local"]), ("gc", ["global"])][ctx.shard % 2])
    ctx.obs("jit_cases")


SUITES = [
    Suite("jit", "jit", jit, quick=300, thorough=4000, shards=2, shards_thorough=2, need=["jit_cases"]),
    Suite("transfer", "py", transfer, quick=80, thorough=600, shards=4, shards_thorough=8, need=["transfers", "transfers_multiphase"]),
    Suite("evolution", "py", evolution, quick=1200, thorough=20000, shards=2, shards_thorough=6, need=["evolutions", "evolutions_with_constraints", "evolutions_with_deaths", "evolutions_many_features"]),
    Suite("compositions", "py", compositions, quick=1000, thorough=15000, shards=2, shards_thorough=6, need=["steps", "one_step"]),
    Suite("analysis", "py", analysis, quick=1500, thorough=20000, shards=2, shards_thorough=6, need=["analysis", "empty_features"]),
]
