"""C13: results respect the symmetries of the mixture."""
import numpy as np

from lib import energies as En
from lib import mix as X
from lib import monitor as Mon
from lib import solve as So
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Metamorphic pairs: a mixture and its transformed copy (relabelled components, features, compartments, constraints; rescaled chi and sizes; chi "
        "shifted by a constant or by a_i + a_j; other numerical options) are evolved from corresponding fields and compared step counts later, or a converged "
        "state of one is handed to the other, which must accept it as converged; analysis functions are compared before and after the transformation. "
        "Non-trivial: the transformation is not the identity; distinct by mixture structure and transformation.")
ASSUMPTIONS = ["handed over states are judged with a bound derived from the tolerance, the shift of chi and the incompressibility coefficients",
               "evolutions are compared without revivals (random fields are not symmetric)"]


def permute(rng, mix):
    """Relabel everything; returns new mix and index maps: new[..] = old[map]."""
    fp = rng.permutation(mix.S)
    start = np.concatenate([[0], np.cumsum(mix.ncpf)])
    cp = np.concatenate([start[r] + rng.permutation(mix.ncpf[r]) for r in fp]).astype(int) if mix.N else np.zeros(0, int)
    mp = rng.permutation(mix.M)
    order = rng.permutation(len(mix.cons))
    cons = []
    for k in order:
        c = mix.cons[k]
        rp = rng.permutation(len(c.Ts))
        cons.append(X.Cons(c.kind, c.Cs[rp][:, fp].copy(), c.Ts[rp].copy(), c.ratio, c.kappa))
    new = mix.copy(chi=mix.chi[np.ix_(fp, fp)], sizes=mix.sizes[cp], ev=mix.ev[cp], ncpf=mix.ncpf[fp], cons=cons)
    return new, fp, cp, mp


def horizon(mix, w, rng, maxn=25):
    """Number of steps without divergence or ambiguous deaths, and the state afterwards."""
    st, n, r = X.fresh_state(mix, w), 0, None
    for _ in range(int(rng.integers(1, maxn))):
        r2 = X.step(mix, st)
        if not Mon.finite(r2, 1e4) or Mon.borderline(mix, r2["next"].J, 1e-6):
            break
        st, n, r = r2["next"], n + 1, r2
    return st, n, r


KEYS = ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")


def relabel(ctx, rng, i, mix=None):
    mix = (X.rand_mix(rng, maxM=10) if mix is None else mix).copy(revive=0)
    new, fp, cp, mp = permute(rng, mix)
    ctx.describe(mix=mix.describe(), features=fp, components=cp, compartments=mp)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    st, n, r = horizon(mix, w, rng)
    if n == 0:
        return ctx.obs("diverged")
    a, b = mix.finder(1), new.finder(2)
    a.reinitialize_from_omegas(w)
    b.reinitialize_from_omegas(w[fp][:, mp])
    pa, pb = a.run(max_steps=n, interval=n, tolerance=1e-300), b.run(max_steps=n, interval=n, tolerance=1e-300)
    live = (st.J > mix.thr)[mp]
    tol = dict(rtol=1e-6, atol=1e-8 * (1 + np.abs(r["le"]).max()))
    ctx.close(b.omegas[:, live], a.omegas[fp][:, mp][:, live], "relabelled fields", **tol)
    ctx.close(pb.fractions[live], pa.fractions[mp][:, cp][live], "relabelled compositions", **tol)
    for key in KEYS:
        ctx.close(b.diagnostics[key], a.diagnostics[key], f"{key} after relabelling", **tol)
    if live.all():
        ctx.close(pb.volumes, pa.volumes[mp], "relabelled volumes", **tol)
        # the same phases after clustering (clear gaps only)
        d = np.abs(pa.fractions[:, None] - pa.fractions[None]).max(-1)
        if np.all((d < 1e-6) | (d > 0.1)):
            ca, cb = pa.get_clusters(), pb.get_clusters()
            ctx.ok(len(ca.volumes) == len(cb.volumes), "relabelling changes the number of clusters")
            ctx.obs("clusters")
    ctx.obs("relabelled")
    ctx.obs("relabelled_with_constraints", bool(mix.cons))
    if (fp != np.arange(mix.S)).any() or (mp != np.arange(mix.M)).any():
        ctx.nontrivial("relabel", mix.signature(), tuple(fp), n)


def rescaled(mix, k):
    return mix.copy(chi=mix.chi / k, sizes=mix.sizes * k, aJ=mix.aJ * k, shift=mix.shift / k,
                    cons=[X.Cons(c.kind, c.Cs.copy(), c.Ts.copy(), c.ratio / k, c.kappa / k) for c in mix.cons])


def scaling(ctx, rng, i, mix=None):
    """chi/k and k*sizes with fields/k: the same compositions and volumes at each step."""
    mix = (X.rand_mix(rng, maxM=10) if mix is None else mix).copy(revive=0)
    k = float(rng.choice([0.5, 2.0, 3.0, 0.31]))
    new = rescaled(mix, k)
    ctx.describe(mix=mix.describe(), k=k)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    st, n, r = horizon(mix, w, rng)
    if n == 0:
        return ctx.obs("diverged")
    a, b = mix.finder(1), new.finder(2)
    a.reinitialize_from_omegas(w)
    b.reinitialize_from_omegas(w / k)
    pa, pb = a.run(max_steps=n, interval=n, tolerance=1e-300), b.run(max_steps=n, interval=n, tolerance=1e-300)
    live = st.J > mix.thr
    tol = dict(rtol=1e-6, atol=1e-8 * (1 + np.abs(r["le"]).max()))
    ctx.close(k * b.omegas[:, live], a.omegas[:, live], "fields after rescaling", **tol)
    ctx.close(pb.fractions[live], pa.fractions[live], "compositions after rescaling", **tol)
    if live.all():
        ctx.close(pb.volumes, pa.volumes, "volumes after rescaling", **tol)
    for key, f in zip(KEYS, (1, k, k, 1)):
        ctx.close(f * b.diagnostics[key], a.diagnostics[key], f"{key} after rescaling", **tol)
    ctx.obs("rescaled")
    ctx.nontrivial("scaling", mix.signature(), k, n)


def constant(ctx, rng, i, mix=None):
    """chi + c: the same fields and compositions at each step when volumes are kept."""
    mix = (X.rand_mix(rng, maxM=10) if mix is None else mix).copy(revive=0, aJ=0.0, thr=0.0)
    c = float(rng.choice([-3.0, 0.7, 5.0]))
    new = mix.copy(chi=mix.chi + c)
    ctx.describe(mix=mix.describe(), c=c)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    st, n, r = horizon(mix, w, rng)
    if n == 0:
        return ctx.obs("diverged")
    a, b = mix.finder(1), new.finder(2)
    for f in (a, b):
        f.reinitialize_from_omegas(w)
    pa, pb = a.run(max_steps=n, interval=n, tolerance=1e-300), b.run(max_steps=n, interval=n, tolerance=1e-300)
    tol = dict(rtol=1e-6, atol=1e-8 * (1 + np.abs(r["le"]).max() + np.abs(r["inc"]).max()))
    ctx.close(b.omegas, a.omegas, "fields after adding a constant to chi", **tol)
    ctx.close(pb.fractions, pa.fractions, "compositions after adding a constant to chi", **tol)
    ctx.close(pb.volumes, pa.volumes, "volumes after adding a constant to chi", **tol)
    for key in ("max_abs_incomp", "max_abs_omega_diff", "max_constraint_residue"):
        ctx.close(b.diagnostics[key], a.diagnostics[key], f"{key} after adding a constant to chi", **tol)
    ctx.obs("constant")
    ctx.nontrivial("constant", mix.signature(), c, n)


def transfer(ctx, rng, i):
    """A converged state is a converged state of the transformed mixture."""
    tol = 1e-6
    ens = str(rng.choice(["can", "can", "gc"]))
    mix = So.solvable(rng, ens=ens, block=bool(rng.random() < 0.3))
    if rng.random() < 0.6:
        chi = rng.uniform(2.8, 4.5, (mix.S, mix.S))
        mix = mix.copy(chi=np.triu(chi, 1) + np.triu(chi, 1).T, aw=0.06)
    f, ph, conv = So.run(mix, int(rng.integers(1 << 30)), tol, max_steps=16000)
    if not conv or len(np.unique(np.asarray(ph.fractions), axis=0)) < mix.M:
        return ctx.obs("not_converged")
    F, w = np.asarray(ph.fractions), f.omegas.copy()
    base = mix.copy(ev=F.mean(0) if ens == "can" else mix.ev)
    phases = So.phases_seen(F)
    S = mix.S
    a = rng.normal(0, 2, S)
    c, k = float(rng.normal(0, 3)), float(rng.choice([0.4, 2.0, 3.0]))
    variants = {"same": (base, w, 1.0), "constant": (base.copy(chi=base.chi + c), w, 1 + abs(c)),
                "scale": (base.copy(chi=base.chi / k, sizes=base.sizes * k), w / k, 1 + 1 / k),
                "options": (base.copy(shift=base.shift * float(rng.choice([0.1, 3.0, 10.0])), aJ=base.aJ * 5, aw=base.aw / 3, ub=0.1, thr=0.05, revive=0, scaler=2.0, std=0.1), w, 1.0)}
    if ens == "can":
        variants["linear"] = (base.copy(chi=base.chi + a[:, None] + a[None]), w + a[:, None], 1 + 3 * np.abs(a).max())
    for name, (m2, w2, scale) in variants.items():
        g = m2.finder(5)
        g.reinitialize_from_omegas(w2)
        g.run(max_steps=1, interval=1, tolerance=1e-300)
        bound = tol * scale * (20 + 4 * abs(X.incomp_coef(base)) / S + 4 * abs(X.incomp_coef(m2)) / S)
        ctx.describe(mix=base.describe(), variant=name)
        for key in KEYS[:3]:
            ctx.ok(g.diagnostics[key] < bound, f"transformation '{name}': a converged state is not converged any more ({key})", got=g.diagnostics[key], bound=bound, mix=base.describe())
            ctx.peak(f"{name}:{key}", g.diagnostics[key] / bound)
        ctx.obs("transfer_" + name)
        ctx.nontrivial("transfer", mix.signature(), name, phases)
    ctx.obs("transfers_multiphase", phases > 1)


def analysis(ctx, rng, i):
    N = int(rng.integers(1, 6))
    chi, sizes = X.rand_chi(rng, N), X.rand_sizes(rng, N)
    fe = flory.FloryHuggins(N, chi, sizes)
    p = En.compositions(rng, N, positive=True)
    if p.size == 0:
        return
    p = p / p.sum(-1, keepdims=True)
    ix = int(rng.integers(N))
    ctx.describe(chi=chi, sizes=sizes, p=p, index=ix)
    perm = rng.permutation(N)
    inv = np.argsort(perm)
    t = dict(rtol=1e-9, atol=1e-9)
    g = flory.FloryHuggins(N, chi[np.ix_(perm, perm)], sizes[perm])
    q = p[..., perm]
    jx = int(inv[ix])
    ctx.close(g.free_energy_density(q), fe.free_energy_density(p), "energy after relabelling", **t)
    ctx.close(g.jacobian(q), fe.jacobian(p)[..., perm], "jacobian after relabelling", **t)
    ctx.close(g.hessian(q), fe.hessian(p)[..., perm, :][..., perm], "hessian after relabelling", **t)
    ctx.close(g.chemical_potentials(q), fe.chemical_potentials(p)[..., perm], "chemical potentials after relabelling", **t)
    ctx.close(g.exchange_chemical_potentials(q, jx), fe.exchange_chemical_potentials(p, ix)[..., perm], "exchange potentials after relabelling", **t)
    ctx.close(g.pressure(q, jx), fe.pressure(p, ix), "pressure after relabelling", **t)
    modes = fe.num_unstable_modes(p)
    H = En.Ref(chi, sizes).reduced_hessian(p, 0) if N > 1 else None
    clear = N > 1 and np.abs(np.linalg.eigvalsh(H)).min() > 1e-6
    if clear:
        ctx.ok(np.array_equal(g.num_unstable_modes(q), modes), "stability after relabelling")
    c, a, k = float(rng.normal(0, 3)), rng.normal(0, 2, N), float(rng.choice([0.4, 2.0, 3.0]))
    g = flory.FloryHuggins(N, chi + c, sizes)
    ctx.close(g.free_energy_density(p), fe.free_energy_density(p) + c / 2, "energy after adding a constant", **t)
    ctx.close(g.exchange_chemical_potentials(p, ix), fe.exchange_chemical_potentials(p, ix), "exchange potentials after adding a constant", **t)
    ctx.close(g.hessian(p, ix), fe.hessian(p, ix), "curvature after adding a constant", **t)
    g2 = flory.FloryHuggins(N, chi + a[:, None] + a[None], sizes)
    ctx.close(g2.free_energy_density(p), fe.free_energy_density(p) + p @ a, "energy after adding a_i + a_j", **t)
    ctx.close(g2.exchange_chemical_potentials(p, ix), fe.exchange_chemical_potentials(p, ix) + a - a[ix], "exchange potentials after adding a_i + a_j", **t)
    ctx.close(g2.hessian(p, ix), fe.hessian(p, ix), "curvature after adding a_i + a_j", **t)
    g3 = flory.FloryHuggins(N, chi / k, sizes * k)
    for name in ("free_energy_density", "jacobian", "hessian", "chemical_potentials"):
        ctx.close(k * np.asarray(getattr(g3, name)(p)), getattr(fe, name)(p), f"{name} after rescaling", **t)
    ctx.close(k * g3.pressure(p, ix), fe.pressure(p, ix), "pressure after rescaling", **t)
    if clear:
        for h in (g, g2, g3):
            ctx.ok(np.array_equal(h.num_unstable_modes(p), modes), "stability after a transformation of chi")
        ctx.obs("stability")
    ctx.obs("analysis")
    ctx.nontrivial("analysis", N, p.shape)


def jit(ctx, rng, i):
    ens, block, kinds = [("can", True, ["local", "global"]), ("gc", False, ["global"])][ctx.shard % 2]
    mix = X.rand_mix(rng, maxM=10, ens=ens, block=block, cons=kinds)
    k = int(rng.integers(3))
    if k == 0:
        jit_relabel(ctx, rng, i, mix)
    else:
        (scaling, constant)[k - 1](ctx, rng, i, mix)
    ctx.obs("jit_cases")


def jit_relabel(ctx, rng, i, mix):
    """Keep the order of kinds of constraints, so that no further compilation is needed."""
    order = [c.kind for c in mix.cons]
    while True:
        state = rng.bit_generator.state
        new, *_ = permute(rng, mix)
        if [c.kind for c in new.cons] == order:
            break
    rng.bit_generator.state = state
    relabel(ctx, rng, i, mix)


SUITES = [
    Suite("jit", "jit", jit, quick=900, thorough=9000, shards=2, shards_thorough=2, need=["jit_cases"]),
    Suite("transfer", "py", transfer, quick=100, thorough=800, shards=4, shards_thorough=8,
          need=["transfer_constant", "transfer_linear", "transfer_scale", "transfer_options", "transfers_multiphase"]),
    Suite("relabel", "py", relabel, quick=1500, thorough=20000, shards=2, shards_thorough=6, need=["relabelled", "relabelled_with_constraints"]),
    Suite("scaling", "py", scaling, quick=1000, thorough=15000, shards=2, shards_thorough=6, need=["rescaled"]),
    Suite("constant", "py", constant, quick=700, thorough=10000, shards=1, shards_thorough=6, need=["constant"]),
    Suite("analysis", "py", analysis, quick=1500, thorough=20000, shards=1, shards_thorough=6, need=["analysis", "stability"]),
]
