"""C16: equal inputs give equal results; wrong inputs are rejected."""
import numpy as np

from lib import energies as En
from lib import mix as X
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Each argument of ingredients, free energies, phases and finders is given in a random representation (list, tuple, integers, single precision, Fortran "
        "order, strided with NaN in the gaps, reversed, read-only, other byte order, scalar), through constructor or setter, and the results are compared "
        "with those for contiguous double arrays; malformed arguments must raise. Non-trivial: a representation other than the contiguous double array "
        "(or a rejection); distinct by argument, representation, and structure.")
ASSUMPTIONS = ["values are multiples of 1/64 so that conversions between representations are exact; analysis functions with single precision inputs are judged to 2e-5",
               "scalars are used where all entries are equal"]


def forms(a):
    """Names of representations that are possible for the array."""
    a = np.asarray(a)
    names = ["array", "list", "tuple", "float32", "strided", "reversed", "readonly", "swapped", "subclass"]
    if a.ndim == 2:
        names += ["fortran", "mixed"]
    if a.size and np.all(a == np.round(a)):
        names += ["int64", "int32", "intlist"]
    if a.size and np.all(a == a.flat[0]):
        names += ["scalar", "zerodim"] + (["intscalar"] if a.flat[0] == round(float(a.flat[0])) else [])
    return names


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


class Sub(np.ndarray):
    pass


def form(a, name):
    a = np.array(a, float)
    if name == "list":
        return a.tolist()
    if name == "tuple":
        return tup(a.tolist())
    if name in ("float32", "int64", "int32"):
        return a.astype(name)
    if name == "intlist":
        return a.astype(int).tolist()
    if name == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), np.nan)
        v = big[tuple(slice(1, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if name == "reversed":
        r = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        return r[tuple(slice(None, None, -1) for _ in a.shape)]
    if name == "readonly":
        a.flags.writeable = False
        return a
    if name == "swapped":
        return a.astype(">f8")
    if name == "subclass":
        return a.view(Sub)
    if name == "fortran":
        return np.asfortranarray(a)
    if name == "mixed":
        return [row for row in a]
    if name == "scalar":
        return float(a.flat[0])
    if name == "intscalar":
        return int(a.flat[0])
    if name == "zerodim":
        return np.array(a.flat[0])
    return a


def pick(rng, a, log, what, avoid=()):
    names = [n for n in forms(a) if n not in avoid]
    name = str(rng.choice(names))
    log.append(f"{what}:{name}")
    return form(a, name)


def grid(a, d=64):
    return np.round(np.asarray(a) * d) / d


def nice_mix(rng, **kw):
    """A mixture whose numbers are exact in all representations."""
    mix = X.rand_mix(rng, maxM=6, **kw)
    style = int(rng.integers(3))
    q = (lambda a: np.round(a)) if style == 0 else grid
    chi = q(mix.chi)
    sizes = np.maximum(q(mix.sizes), 1.0 if style == 0 else 0.25)
    ev = np.maximum(grid(mix.ev), 1 / 64)
    if mix.ens == "gc" and style == 0:
        ev = np.ones(mix.N)
    if style == 2:
        chi, sizes, ev = np.full_like(chi, chi.flat[0]), np.full_like(sizes, sizes[0]), np.full_like(ev, ev[0])
    cons = [X.Cons(c.kind, q(c.Cs) if style < 2 else np.full_like(c.Cs, grid(c.Cs[0, 0])), q(c.Ts) if style < 2 else np.full_like(c.Ts, grid(c.Ts[0])), c.ratio, c.kappa) for c in mix.cons]
    return mix.copy(chi=chi, sizes=sizes, ev=ev, cons=cons, aJ=0.001, aw=0.01, revive=0, thr=0.0, std=0.5)


def variant_parts(rng, mix, log):
    S, N = mix.S, mix.N
    setter = lambda: rng.random() < 0.4
    asym = np.zeros_like(mix.chi)
    if S > 1 and rng.random() < 0.4:
        k = rng.integers(-2, 3, (S, S)).astype(float)
        asym = k - k.T
        log.append("chi:asymmetric")
    chi = lambda: pick(rng, mix.chi + asym, log, "chi")
    nc = np.asarray(mix.ncpf)

    def ncpf():
        names = ["list", "tuple", "int64", "int32", "uint8", "strided"] + (["scalar"] if (nc == nc[0]).all() else [])
        n = str(rng.choice(names))
        log.append("ncpf:" + n)
        return {"list": nc.tolist(), "tuple": tuple(nc.tolist()), "scalar": int(nc[0]), "strided": np.repeat(nc, 2)[::2]}.get(n, nc.astype("int64" if n in ("strided", "scalar", "list", "tuple") else n))

    if mix.block:
        if setter():
            inter = flory.FloryHugginsBlockInteraction(S, 1.5, ncpf())
            inter.chis_feat = chi()
            log.append("chi:setter")
        else:
            inter = flory.FloryHugginsBlockInteraction(S, chi(), ncpf())
        ent = flory.IdealGasPolydispersedEntropy(S, pick(rng, mix.sizes, log, "sizes"), ncpf()) if not setter() else flory.IdealGasPolydispersedEntropy(S, num_comp_per_feat=ncpf())
    else:
        if setter():
            inter = flory.FloryHugginsInteraction(S, 1.5)
            inter.chis = chi()
            log.append("chi:setter")
        else:
            inter = flory.FloryHugginsInteraction(S, chi())
        ent = flory.IdealGasEntropy(N, pick(rng, mix.sizes, log, "sizes")) if not setter() else flory.IdealGasEntropy(N)
    if not np.array_equal(ent.sizes, mix.sizes):
        ent.sizes = pick(rng, mix.sizes, log, "sizes-setter")
    if mix.ens == "can":
        if setter():
            ens = flory.CanonicalEnsemble(N)
            ens.phi_means = pick(rng, mix.ev, log, "phi_means-setter")
        else:
            ens = flory.CanonicalEnsemble(N, pick(rng, mix.ev, log, "phi_means"))
    else:
        if setter():
            ens = flory.GrandCanonicalEnsemble(N, 1)
            ens.scaled_activity = pick(rng, mix.ev, log, "activity-setter")
        else:
            ens = flory.GrandCanonicalEnsemble(N, pick(rng, mix.ev, log, "activity"))
    cons = []
    for c in mix.cons:
        cls = flory.LinearLocalConstraint if c.kind == "local" else flory.LinearGlobalConstraint
        A = len(c.Ts)
        Cs = c.Cs[0] if A == 1 and rng.random() < 0.5 else c.Cs
        avoid = ("scalar", "intscalar", "zerodim") if A > 1 else ()
        if setter():
            o = cls(S, np.ones((A, S)), 0)
            o.Cs, o.Ts = pick(rng, Cs, log, "Cs-setter"), pick(rng, c.Ts, log, "Ts-setter")
        else:
            o = cls(S, pick(rng, Cs, log, "Cs", avoid), pick(rng, c.Ts, log, "Ts"))
        cons.append(o)
    if len(cons) == 1 and rng.random() < 0.5:
        cons = cons[0]
        log.append("constraints:single")
    elif cons and rng.random() < 0.5:
        cons = tuple(cons)
        log.append("constraints:tuple")
    return {"interaction": inter, "entropy": ent, "ensemble": ens, "constraints": cons or None}


KEYS = ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")


def finder(ctx, rng, i, combo=None):
    mix = nice_mix(rng) if combo is None else nice_mix(rng, ens=combo[0], block=combo[1], cons=list(combo[2]) if combo[2] else False)
    log = []
    ctx.describe(mix=mix.describe(), forms=log)
    a, b = mix.finder(3), mix.finder(3, variant_parts(rng, mix, log))
    if rng.random() < 0.5:
        w = grid(rng.normal(0, 0.5, (mix.S, mix.M)))
        if rng.random() < 0.3:
            w = np.round(w)
        func, what = "reinitialize_from_omegas", "omegas"
    else:
        w = grid(rng.uniform(0.1, 0.6, (mix.S, mix.M)))
        func, what = "reinitialize_from_phis", "phis"
    getattr(a, func)(w.copy())
    getattr(b, func)(pick(rng, w, log, what, avoid=("scalar", "intscalar", "zerodim")))
    n = int(rng.integers(1, 5))
    try:
        pa = a.run(max_steps=n, interval=n, tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    pb = b.run(max_steps=n, interval=n, tolerance=1e-300)
    if not np.isfinite(pa.fractions).all() or np.abs(pa.fractions).max() > 1e6:
        return ctx.obs("diverged")
    for x, y, name in ((pa.volumes, pb.volumes, "volumes"), (pa.fractions, pb.fractions, "compositions"), (a.omegas, b.omegas, "fields"),
                       ([a.diagnostics[k] for k in KEYS], [b.diagnostics[k] for k in KEYS], "diagnostics")):
        ctx.close(y, x, f"{name} depend on the representation of the inputs", rtol=1e-7, atol=1e-9, forms=log)
    for x in log:
        ctx.obs(x)
        if not x.endswith(":array"):
            ctx.nontrivial(x, mix.signature())
    ctx.obs("finders")


def analysis(ctx, rng, i):
    N = int(rng.integers(1, 6))
    style = int(rng.integers(3))
    q = np.round if style == 0 else grid
    chi, sizes = q(X.rand_chi(rng, N)), np.maximum(q(X.rand_sizes(rng, N)), 1.0)
    if style == 2:
        chi, sizes = np.full_like(chi, chi[0, 0]), np.full_like(sizes, sizes[0])
    log = []
    fe = flory.FloryHuggins(N, chi.copy(), sizes.copy())
    asym = np.zeros((N, N))
    if rng.random() < 0.4:
        k = rng.integers(-2, 3, (N, N)).astype(float)
        asym = k - k.T
    c, s = pick(rng, chi + asym, log, "chi"), pick(rng, sizes, log, "sizes")
    how = int(rng.integers(3))
    if how == 0:
        g = flory.FloryHuggins(N, c, s)
    elif how == 1:
        g = flory.FloryHuggins(N, 0.0)
        g.chis, g.sizes = c, s
    else:
        g = flory.FreeEnergyBase(flory.FloryHugginsInteraction(N, c), flory.IdealGasEntropy(N, s))
    ctx.close(g.interaction.chis, chi, "chi is not stored symmetrised", rtol=0, atol=0)
    p = En.compositions(rng, N, positive=True)
    p = np.maximum(grid(p, 256), 1 / 256)
    if rng.random() < 0.15:
        p = np.ones_like(p)
    if p.ndim > 2 or p.size == 0:
        return
    single = False
    v = pick(rng, p, log, "phis", avoid=("scalar", "intscalar", "zerodim"))
    t = dict(rtol=2e-5, atol=2e-5) if any(x.endswith("float32") for x in log) else dict(rtol=1e-9, atol=1e-9)
    ctx.describe(chi=chi, sizes=sizes, p=p, forms=log)
    ix = int(rng.integers(-N, N))
    fns = {"free_energy_density": (), "jacobian": (), "hessian": (), "chemical_potentials": (), "exchange_chemical_potentials": (ix,), "pressure": (ix,)}
    for name, args in fns.items():
        ctx.close(getattr(g, name)(v, *args), getattr(fe, name)(p, *args), f"{name} depends on the representation of its inputs", forms=log, **t)
    ctx.close(g.jacobian(v, ix), fe.jacobian(p, ix), "jacobian(index) depends on the representation", forms=log, **t)
    ctx.close(g.hessian(v, ix), fe.hessian(p, ix), "hessian(index) depends on the representation", forms=log, **t)
    if N > 1:
        H = En.Ref(chi, sizes).reduced_hessian(p, 0)
        if np.abs(np.linalg.eigvalsh(H)).min() > 1e-2:
            ctx.ok(np.array_equal(g.num_unstable_modes(v), fe.num_unstable_modes(p)), "stability depends on the representation", forms=log)
            ctx.ok(np.array_equal(g.is_stable(v), fe.is_stable(p)), "is_stable depends on the representation", forms=log)
    if p.ndim == 2:
        e = dict(rtol=2e-4, atol=2e-4) if "rtol" in t and t["rtol"] > 1e-6 else t
        ctx.close(g.equilibration_error(v), fe.equilibration_error(p), "equilibration_error depends on the representation", forms=log, **e)
        vol = grid(rng.uniform(0.1, 1, len(p)))
        A, B = flory.Phases(vol.copy(), p.copy()), flory.Phases(pick(rng, vol, log, "volumes", avoid=("scalar", "intscalar", "zerodim")), form(p, str(rng.choice(["list", "tuple", "strided", "fortran", "readonly", "array", "swapped"]))))
        u = dict(rtol=1e-5, atol=1e-6) if "volumes:float32" in log else dict(rtol=1e-9, atol=1e-12)
        ctx.close(B.mean_fractions, A.mean_fractions, "mean fractions depend on the representation", **u)
        ctx.close(B.total_volume, A.total_volume, "total volume depends on the representation", **u)
        ctx.close(B.normalize().volumes, A.normalize().volumes, "normalised volumes depend on the representation", **u)
        ctx.close(B.sort().fractions, A.sort().fractions, "sorted phases depend on the representation", **u)
        if len(p) > 1:
            ctx.close(np.sort(B.get_clusters(0.1).volumes), np.sort(A.get_clusters(0.1).volumes), "clusters depend on the representation", **u)
        ctx.obs("phases")
    mu = grid(rng.normal(0, 1, N))
    m = pick(rng, mu, log, "mus")
    l = pick(rng, sizes, log, "mu-sizes")
    t2 = dict(rtol=2e-5) if "float32" in log[-1] + log[-2] else dict(rtol=1e-10)
    ctx.close(flory.GrandCanonicalEnsemble.from_chemical_potential(N, m, l).scaled_activity, sizes * np.exp(sizes * mu), "activities depend on the representation", forms=log, **t2)
    for x in log:
        ctx.obs(x)
        if not x.endswith(":array"):
            ctx.nontrivial("analysis", x, N, p.ndim, how)
    ctx.obs("analysis")


def former(ctx, rng, i):
    """Values given later are used as they are, whatever type the former values of the object had."""
    S = int(rng.integers(1, 5))
    ncpf = rng.integers(1, 4, S)
    N = int(ncpf.sum())
    narrow = [np.float32, np.float16, np.int64, np.int8, np.int32, bool, int, float][rng.integers(8)]
    scalar = bool(rng.random() < 0.3)
    old = lambda *shape: narrow(1) if scalar or narrow in (int, float, bool) else np.ones(shape, narrow)
    feat = np.repeat(np.arange(S), ncpf)
    ctx.describe(S=S, ncpf=ncpf, former=narrow.__name__, scalar=scalar)
    for rep in range(2):  # twice: now the former values are of another kind
        wide = [np.float64, np.float64, np.longdouble][rng.integers(3)]
        chi, sizes, ev = rng.normal(0, 2, (N, N)), 10 ** rng.uniform(-1, 1, N), rng.uniform(0.01, 1, N)
        chi = chi + chi.T
        chif = rng.normal(0, 2, (S, S))
        chif = chif + chif.T
        A = int(rng.integers(1, 4))
        Cs, Ts = rng.normal(0, 1, (A, S)), rng.normal(0, 1, A)
        if rep == 0:
            fe = flory.FloryHuggins(N, old(N, N), old(N))
            block = flory.FloryHugginsBlockInteraction(S, old(S, S), ncpf)
            poly = flory.IdealGasPolydispersedEntropy(S, old(N), ncpf)
            can, gc = flory.CanonicalEnsemble(N, old(N)), flory.GrandCanonicalEnsemble(N, old(N))
            cons = [cls(S, np.ones((A, S), narrow), np.ones(A, narrow)) for cls in (flory.LinearLocalConstraint, flory.LinearGlobalConstraint)]
            first = A
        else:
            A = first
            Cs, Ts = rng.normal(0, 1, (A, S)), rng.normal(0, 1, A)
        v = lambda a: a.astype(wide)
        fe.chis, fe.sizes = v(chi), v(sizes)
        block.chis_feat, poly.sizes, can.phi_means, gc.scaled_activity = v(chif), v(sizes), v(ev), v(ev)
        pairs = [("chis", fe.chis, chi), ("sizes", fe.sizes, sizes), ("chis_feat", block.chis_feat, chif), ("chis", block.chis, chif[np.ix_(feat, feat)]),
                 ("sizes", poly.sizes, sizes), ("phi_means", can.phi_means, ev), ("scaled_activity", gc.scaled_activity, ev)]
        for c in cons:
            c.Cs, c.Ts = v(Cs), v(Ts)
            pairs += [("Cs", c.Cs, Cs), ("Ts", c.Ts, Ts)]
        for name, got, want in pairs:
            ctx.close(got, want, f"{name}: values are changed when set", rtol=1e-15, atol=0, former=narrow.__name__)
        p = rng.dirichlet(np.ones(N), size=2)
        ctx.close(fe.free_energy_density(p), X.energy(chi, sizes, p), "energy after changes of the type", rtol=1e-10, atol=1e-10)
        J, M = np.ones(3), 3
        w = rng.normal(0, 1, (S, M))
        for ent, f in ((poly, w), (fe.entropy, w[feat])):
            q = np.zeros((N, M))
            ent.compiled().partition(q, np.ascontiguousarray(f), J)
            ctx.close(q, np.exp(-sizes[:, None] * w[feat]), "Boltzmann factors after changes of the type", rtol=1e-12)
        ctx.close(block.compiled().potential(w), chif @ w, "potential after changes of the type", rtol=1e-12)
        for ens, fac in ((can, ev), (gc, ev)):
            q = np.ones((N, M))
            ens.compiled().normalize(q, np.ones(N), np.ones(M))
            ctx.close(q, np.repeat(ev[:, None], M, 1), "fractions after changes of the type", rtol=1e-12)
    ctx.obs("former")
    ctx.nontrivial("former", N, S, narrow.__name__, scalar)


def expect(ctx, exc, what, func, sig):
    ctx.raises(exc, func, what)
    ctx.obs("rejections")
    ctx.nontrivial("reject", what, sig)


def errors(ctx, rng, i):
    from flory.common import ComponentNumberError, FeatureNumberError, VolumeFractionError

    N = int(rng.integers(1, 5))
    d = int(rng.choice([1, 2]))
    chi, sizes, phi = X.rand_chi(rng, N), X.rand_sizes(rng, N), X.rand_simplex(rng, N)
    ctx.describe(N=N, d=d)
    bad_chi = [np.ones((N + d, N + d)), np.ones((N + d, N)), np.ones((N, N + d)), np.ones((1, N, N)), np.ones(N + d)][rng.integers(5)]
    bad_vec = [np.ones(N + d), np.ones((1, N)), np.ones((N + 1, 1)), np.ones((2, N))][rng.integers(4)] / 5
    sig = (N, bad_chi.shape, bad_vec.shape)
    lists = rng.random() < 0.3
    if lists:
        bad_chi, bad_vec = bad_chi.tolist(), bad_vec.tolist()
    V = ValueError
    fe = flory.FloryHuggins(N, chi, sizes)
    expect(ctx, V, "interaction matrix of the wrong shape", lambda: flory.FloryHugginsInteraction(N, bad_chi), sig)
    expect(ctx, V, "interaction matrix of the wrong shape (free energy)", lambda: flory.FloryHuggins(N, bad_chi), sig)
    expect(ctx, V, "interaction matrix of the wrong shape (setter)", lambda: setattr(fe, "chis", bad_chi), sig)
    ctx.close(fe.chis, chi, "a rejected interaction matrix changed the old one", rtol=1e-12)
    expect(ctx, V, "sizes of the wrong shape", lambda: flory.IdealGasEntropy(N, bad_vec), sig)
    expect(ctx, V, "sizes of the wrong shape (free energy)", lambda: flory.FloryHuggins(N, chi, bad_vec), sig)
    expect(ctx, V, "sizes of the wrong shape (setter)", lambda: setattr(fe, "sizes", bad_vec), sig)
    ctx.close(fe.sizes, sizes, "rejected sizes changed the old ones", rtol=1e-12)
    can, gc = flory.CanonicalEnsemble(N, phi), flory.GrandCanonicalEnsemble(N, phi)
    expect(ctx, V, "mean fractions of the wrong shape", lambda: flory.CanonicalEnsemble(N, bad_vec), sig)
    expect(ctx, V, "mean fractions of the wrong shape (setter)", lambda: setattr(can, "phi_means", bad_vec), sig)
    expect(ctx, V, "activities of the wrong shape", lambda: flory.GrandCanonicalEnsemble(N, bad_vec), sig)
    expect(ctx, V, "activities of the wrong shape (setter)", lambda: setattr(gc, "scaled_activity", bad_vec), sig)
    expect(ctx, V, "chemical potentials of the wrong shape", lambda: flory.GrandCanonicalEnsemble.from_chemical_potential(N, bad_vec), sig)
    expect(ctx, V, "sizes of the wrong shape (activities)", lambda: flory.GrandCanonicalEnsemble.from_chemical_potential(N, np.zeros(N), bad_vec), sig)
    ctx.close(gc.scaled_activity, phi, "rejected activities changed the old ones", rtol=1e-12)
    for cls in (flory.LinearLocalConstraint, flory.LinearGlobalConstraint):
        A = int(rng.integers(1, 3))
        badC = [np.ones((A, N + d)), np.ones((A, 1, N)), np.ones(N + d)][rng.integers(3)]
        badT = [np.ones(A + d), np.ones((A, 2))][rng.integers(2)]
        o = cls(N, np.ones((A, N)), np.ones(A))
        expect(ctx, V, "constraint coefficients of the wrong shape", lambda: cls(N, badC, np.ones(A)), (N, badC.shape))
        expect(ctx, V, "constraint coefficients of the wrong shape (setter)", lambda: setattr(o, "Cs", badC), (N, badC.shape))
        expect(ctx, V, "constraint targets of the wrong shape", lambda: cls(N, np.ones((A, N)), badT), (N, badT.shape))
        expect(ctx, V, "constraint targets of the wrong shape (setter)", lambda: setattr(o, "Ts", badT), (N, badT.shape))
        expect(ctx, V, "more rows of constraints than before (setter)", lambda: setattr(o, "Cs", np.ones((A + 1, N))), (N, A))
    ncpf = rng.integers(1, 3, N)
    bad_n = [np.ones(N + d, int), np.ones((1, N), int)][rng.integers(2)]
    expect(ctx, V, "component numbers of the wrong shape (interaction)", lambda: flory.FloryHugginsBlockInteraction(N, chi, bad_n), sig)
    expect(ctx, V, "component numbers of the wrong shape (entropy)", lambda: flory.IdealGasPolydispersedEntropy(N, 1.0, bad_n), sig)
    expect(ctx, V, "feature matrix of the wrong shape", lambda: flory.FloryHugginsBlockInteraction(N, bad_chi, ncpf), sig)
    blk = flory.FloryHugginsBlockInteraction(N, chi, ncpf)
    expect(ctx, V, "feature matrix of the wrong shape (setter)", lambda: setattr(blk, "chis_feat", bad_chi), sig)
    ctx.close(blk.chis_feat, chi, "a rejected feature matrix changed the old one", rtol=1e-12)
    ctx.close(blk.chis, np.repeat(np.repeat(chi, ncpf, 0), ncpf, 1), "a rejected feature matrix changed the expanded one", rtol=1e-12)
    n2 = int(ncpf.sum()) + d
    expect(ctx, V, "sizes of the wrong shape (polydispersed)", lambda: flory.IdealGasPolydispersedEntropy(N, np.ones(n2), ncpf), sig)
    expect(ctx, ComponentNumberError, "free energy of incompatible parts", lambda: flory.FreeEnergyBase(flory.FloryHugginsInteraction(N + d, 0.0), flory.IdealGasEntropy(N)), sig)
    expect(ctx, ComponentNumberError, "free energy of incompatible parts", lambda: flory.FreeEnergyBase(blk, flory.IdealGasEntropy(n2)), sig)
    # compositions
    lead = [(), (3,), (2, 2)][rng.integers(3)]
    wrong = np.full(lead + (N + d,), 1 / (N + d))
    neg = np.full(lead + (N,), 1 / N)
    neg.reshape(-1)[rng.integers(neg.size)] = -float(rng.choice([1e-300, 1e-20, 1e-12, 1e-9, 0.1, 1.0]))
    if lists:
        wrong, neg = wrong.tolist(), neg.tolist()
    ax = int(rng.integers(-3, 3))
    for A, good in ((np.full((N, N, N), 1 / N), True), (np.full((N + d, N + 2 * d, N + d), 1 / N), False)):
        if good:
            B = A.copy()
            ctx.ok(np.array_equal(fe.check_volume_fractions(A, axis=ax), B), "valid fractions are returned unchanged")
            A.reshape(-1)[rng.integers(A.size)] = -1e-9
        expect(ctx, VolumeFractionError, "check of wrong fractions", lambda: fe.check_volume_fractions(A, axis=ax), (N, ax))
    shape = [2, 3, 4]
    shape[ax] = N
    ctx.ok(np.shape(fe.check_volume_fractions(np.ones(shape), axis=ax)) == tuple(shape), "fractions along another axis")
    for name in ("free_energy_density", "jacobian", "hessian", "chemical_potentials", "exchange_chemical_potentials", "pressure", "num_unstable_modes", "is_stable"):
        f = getattr(fe, name)
        args = (0,) if name in ("exchange_chemical_potentials", "pressure") else ()
        if N == 1 and name in ("num_unstable_modes", "is_stable"):
            continue
        expect(ctx, VolumeFractionError, f"{name} of a composition with the wrong number of components", lambda: f(wrong, *args), (N, lead))
        expect(ctx, VolumeFractionError, f"{name} of a negative composition", lambda: f(neg, *args), (N, lead))
    if len(lead) == 1:
        expect(ctx, VolumeFractionError, "equilibration_error of the wrong number of components", lambda: fe.equilibration_error(wrong), N)
        expect(ctx, VolumeFractionError, "equilibration_error of a negative composition", lambda: fe.equilibration_error(neg), N)
    # finders and the convenience function
    E = (ComponentNumberError, FeatureNumberError)
    F = lambda **k: flory.CoexistingPhasesFinder(k.get("i", fe.interaction), k.get("e", fe.entropy), k.get("n", can), k.get("c"), progress=False, num_part=3)
    for D in [N + d] + ([int(rng.integers(1, N))] if N > 1 else []):  # too large and too small
        expect(ctx, E, "finder with an interaction of the wrong size", lambda: F(i=flory.FloryHugginsInteraction(D, 1.0)), (N, D))
        expect(ctx, E, "finder with an entropy of the wrong size", lambda: F(e=flory.IdealGasEntropy(D)), (N, D))
        expect(ctx, E, "finder with an ensemble of the wrong size", lambda: F(n=flory.GrandCanonicalEnsemble(D, np.ones(D))), (N, D))
        expect(ctx, E, "finder with an ensemble of the wrong size", lambda: F(n=flory.CanonicalEnsemble(D)), (N, D))
        expect(ctx, E, "finder with a constraint of the wrong size", lambda: F(c=flory.LinearGlobalConstraint(D, np.ones((1, D)), 1.0)), (N, D))
        expect(ctx, E, "finder with a constraint of the wrong size", lambda: F(c=flory.LinearLocalConstraint(D, np.ones((1, D)), 1.0)), (N, D))
        # equal numbers of components, but different numbers of features
        nc = np.append(np.ones(D - 1, int), N - D + 1) if D < N else None
        if nc is not None:
            expect(ctx, FeatureNumberError, "finder with an interaction of fewer features", lambda: F(i=flory.FloryHugginsBlockInteraction(D, 1.0, nc)), (N, D))
            expect(ctx, FeatureNumberError, "finder with an entropy of fewer features", lambda: F(e=flory.IdealGasPolydispersedEntropy(D, 1.0, nc)), (N, D))
        fi = F()
        expect(ctx, E, "replacing the interaction by one of the wrong size", lambda: fi.set_interaction(flory.FloryHugginsInteraction(D, 1.0)), (N, D))
        expect(ctx, E, "replacing the entropy by one of the wrong size", lambda: fi.set_entropy(flory.IdealGasEntropy(D)), (N, D))
        expect(ctx, E, "replacing the ensemble by one of the wrong size", lambda: fi.set_ensemble(flory.CanonicalEnsemble(D)), (N, D))
        expect(ctx, E, "replacing the constraints by one of the wrong size", lambda: fi.set_constraints(flory.LinearLocalConstraint(D, np.ones((1, D)), 1.0)), (N, D))
    expect(ctx, V, "convenience function with a wrong matrix", lambda: flory.find_coexisting_phases(N, bad_chi, phi, progress=False, max_steps=2), sig)
    expect(ctx, V, "convenience function with wrong fractions", lambda: flory.find_coexisting_phases(N, chi, bad_vec, progress=False, max_steps=2), sig)
    expect(ctx, V, "convenience function with wrong sizes", lambda: flory.find_coexisting_phases(N, chi, phi, bad_vec, progress=False, max_steps=2), sig)
    fi = F()
    for bad in (np.zeros((N + d, 3)), np.zeros((N, 3 + d)), np.zeros(N), np.zeros((1, N, 3)), np.zeros(3 * N), np.zeros((N, 1)), np.zeros((1, 3)), 0.0) + ((np.zeros((3, N)), np.zeros((3, N), order="F")) if N != 3 else ()):
        if np.shape(bad) == (N, 3):
            continue
        expect(ctx, V, "field of the wrong shape", lambda: fi.reinitialize_from_omegas(bad), np.shape(bad))
        expect(ctx, V, "field of the wrong shape", lambda: fi.reinitialize_from_phis(bad), np.shape(bad))
        expect(ctx, V, "field of the wrong shape", lambda: fi.check_field(bad), np.shape(bad))
    expect(ctx, V, "undefined convergence criterion", lambda: flory.CoexistingPhasesFinder(
        fe.interaction, fe.entropy, can, progress=False, num_part=2, convergence_criterion=str(rng.choice(["Standard", "strict", ""]))).run(max_steps=2), N)
    expect(ctx, V, "phases with two-dimensional volumes", lambda: flory.Phases(np.ones((2, 1)), np.ones((2, N))), N)
    expect(ctx, V, "phases with one-dimensional fractions", lambda: flory.Phases(np.ones(2), np.ones(2)), N)
    expect(ctx, V, "phases with inconsistent numbers", lambda: flory.Phases(np.ones(2), np.ones((2 + d, N))), N)
    expect(ctx, V, "ensemble without components", lambda: flory.GrandCanonicalEnsemble(0, np.ones(0)), N)
    # valid inputs are accepted next to rejected ones
    ctx.ok(np.isfinite(fe.free_energy_density(phi)), "valid input after rejected ones")


def symmetric(ctx, rng, i):
    """Asymmetric matrices are symmetrised everywhere."""
    S = int(rng.integers(2, 5))
    A = rng.normal(0, 1, (S, S)) * float(rng.choice([1e-7, 1.0, 1e3]))
    B = 0.5 * (A + A.T)
    if rng.random() < 0.2:
        A = A.tolist()
    ncpf = rng.integers(0, 3, S)
    ncpf[0] = 1
    objs = [flory.FloryHugginsInteraction(S, A), flory.FloryHuggins(S, A).interaction, flory.FloryHuggins(S, 0.0).interaction]
    objs[2].chis = A
    for o in objs:
        ctx.close(o.chis, B, "matrix is not symmetrised", rtol=1e-14, atol=0)
        ctx.close(o.independent_entries, B[np.triu_indices(S)], "independent entries", rtol=1e-14, atol=0)
    for how in range(2):
        o = flory.FloryHugginsBlockInteraction(S, A if how else 2.0, ncpf)
        if not how:
            o.chis_feat = A
        ctx.close(o.chis_feat, B, "feature matrix is not symmetrised", rtol=1e-14, atol=0)
        ctx.close(o.chis, np.repeat(np.repeat(B, ncpf, 0), ncpf, 1), "expanded matrix is not symmetrised", rtol=1e-14, atol=0)
        objs.append(o)
    for o in objs:
        p = rng.uniform(0, 1, (S, 3))
        ctx.close(o.compiled().potential(p), B @ p, "compiled interaction is not symmetrised", rtol=1e-9, atol=1e-12)
    ctx.obs("symmetrised")
    ctx.nontrivial("symmetric", S, tuple(ncpf))


COMBOS = [("can", False, ("local",)), ("gc", True, ("global", "local")), ("can", True, ()), ("gc", False, ("local",))]


def jit(ctx, rng, i):
    finder(ctx, rng, i, COMBOS[ctx.shard % len(COMBOS)])
    ctx.obs("jit_cases")


ARGS = ["chi", "sizes", "phi_means", "activity", "Cs", "Ts", "omegas", "phis"]
SUITES = [
    Suite("jit", "jit", jit, quick=700, thorough=8000, shards=2, shards_thorough=4, need=["jit_cases"]),
    Suite("errors-jit", "jit", errors, quick=40, thorough=400, shards=1, shards_thorough=2, need=["rejections"]),
    Suite("finder", "py", finder, quick=2500, thorough=30000, shards=3, shards_thorough=6,
          need=["finders"] + [f"{a}:{f}" for a in ARGS for f in ("list", "tuple", "float32", "strided", "readonly", "int64")] + ["chi:asymmetric", "chi:setter", "ncpf:list", "ncpf:scalar", "chi:scalar", "sizes:scalar"]),
    Suite("analysis", "py", analysis, quick=2000, thorough=30000, shards=2, shards_thorough=6, need=["analysis", "phases", "phis:float32", "phis:list", "phis:fortran"]),
    Suite("errors", "py", errors, quick=300, thorough=4000, shards=1, shards_thorough=4, need=["rejections"]),
    Suite("former", "py", former, quick=600, thorough=8000, shards=1, shards_thorough=2, need=["former"]),
    Suite("symmetric", "py", symmetric, quick=500, thorough=5000, shards=1, need=["symmetrised"]),
]
