"""C19: solver ingredients and analysis classes describe the same free energy."""
import numpy as np

from lib import mix as X
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Random ingredients (component- and feature-based, features with several or no components, parameters from constructors or setters, several "
        "options, compiled at different moments) are compiled; every method of the compiled objects is called on random fields, volumes, masks and "
        "fractions and compared with derivatives of the documented energies, computed with independent formulas, with finite differences and with the "
        "analysis methods of the library. Constraints go through random sequences of prepare, access and evolve with a shadow copy of the multipliers. "
        "Interpreted and machine-code lanes. Non-trivial: every case; distinct by ingredient types, sizes, masks, origin of parameters.")
ASSUMPTIONS = ["compiled objects are used as documented: contiguous double arrays; constraints in the order initialize, (prepare, access, evolve)*"]


def close(ctx, a, b, what, scale=None, **kw):
    b = np.asarray(b, float)
    s = np.abs(b).max() if b.size else 0
    ctx.close(a, b, what, rtol=1e-10, atol=1e-12 + 1e-12 * max(s, 0 if scale is None else scale), **kw)


def fields(rng, mix):
    w = rng.normal(0, rng.choice([0.3, 1.0, 3.0]), (mix.S, mix.M))
    J = rng.uniform(0.02, 3, mix.M)
    mask = np.ones(mix.M)
    if mix.M > 1 and rng.random() < 0.4:
        mask[rng.random(mix.M) < 0.4] = 0
        if mask.sum() == 0:
            mask[rng.integers(mix.M)] = 1
    if rng.random() < 0.3:
        J = J * 10 ** rng.uniform(-3, 3)
    return w, J * mask, mask


def compile_options(mix):
    return dict(additional_chis_shift=mix.shift, acceptance_Js=3, whatever="ignored")


def parts(rng, mix):
    """Interaction and entropy whose parameters come from constructors or setters."""
    inter, ent, how = mix.interaction(), mix.entropy(), "constructor"
    if not mix.block and rng.random() < 0.3:  # through the Flory-Huggins class
        how, k = "free energy", int(rng.integers(4))
        if k == 0:
            fe = flory.FloryHuggins(mix.N, mix.chi.copy(), mix.sizes.copy())
        elif k == 1:
            v = float(rng.normal(0, 3))
            fe = flory.FloryHuggins.from_uniform(mix.N, v, sizes=mix.sizes.copy())
            mix.chi = v * (1 - np.eye(mix.N))
        elif k == 2:
            fe = flory.FloryHuggins.from_random_normal(mix.N, 1.0, 2.0, sizes=mix.sizes.copy(), rng=np.random.default_rng(int(rng.integers(1 << 30))))
            mix.chi = np.array(fe.chis, float)
        else:
            fe = flory.FloryHuggins(mix.N, 1.0, X.rand_sizes(rng, mix.N))
            if rng.random() < 0.5:
                fe.interaction_compiled()
                fe.entropy_compiled()
            fe.chis = mix.chi.copy()
            fe.sizes = mix.sizes.copy()
        return fe.interaction, fe.entropy, how
    if rng.random() < 0.6:
        how = "setter"
        other = mix.copy(chi=X.rand_chi(rng, mix.S), sizes=X.rand_sizes(rng, mix.N))
        if rng.random() < 0.3:  # a tiny change is a change, too
            other = mix.copy(chi=mix.chi * (1 + 10 ** rng.uniform(-7, -4)), sizes=mix.sizes * (1 + 10 ** rng.uniform(-7, -4, mix.N)))
        inter, ent = other.interaction(), other.entropy()
        if rng.random() < 0.5:  # compiled before the change: must not matter
            opts = compile_options(mix) if rng.random() < 0.6 else {}
            inter.compiled(**opts)
            ent.compiled(**opts)
        if mix.block:
            inter.chis_feat = mix.chi.copy()
        elif rng.random() < 0.3 and mix.S > 1:
            v = float(rng.normal(0, 3))
            inter.set_uniform_chis(v)
            mix.chi = v * (1 - np.eye(mix.S))
        else:
            inter.chis = mix.chi.copy()
        ent.sizes = mix.sizes.copy()
    return inter, ent, how


def physics(ctx, rng, i):
    """Interaction and entropy."""
    mix = X.rand_mix(rng, cons=False)
    inter, ent, how = parts(rng, mix)
    ctx.describe(mix=mix.describe(), how=how)
    S, N, M = mix.S, mix.N, mix.M
    opts = compile_options(mix)
    fe = flory.FreeEnergyBase(inter, ent)
    if rng.random() < 0.4:
        ci, ce, ci0 = fe.interaction_compiled(**opts), fe.entropy_compiled(**opts), fe.interaction_compiled()
        ctx.obs("via_free_energy")
    else:
        ci, ce, ci0 = inter.compiled(**opts), ent.compiled(**opts), inter.compiled()
    ctx.ok(ci.num_feat == S and ce.num_feat == S, "number of features of compiled objects", got=[ci.num_feat, ce.num_feat], expected=S)
    ctx.ok(ce.num_comp == N and inter.num_comp == N and ent.num_comp == N and fe.num_comp == N, "number of components", expected=N)
    w, J, mask = fields(rng, mix)
    # --- entropy: Boltzmann factors and partition functions
    p = np.full((N, M), np.nan)
    w0, J0 = w.copy(), J.copy()
    Q = ce.partition(p, w, J)
    ctx.ok(np.array_equal(w, w0) and np.array_equal(J, J0), "partition modified fields or volumes")
    close(ctx, p, np.exp(-mix.sizes[:, None] * w[mix.feat]), "Boltzmann factors")
    close(ctx, Q, (p * J).sum(1) / J.sum(), "partition functions")
    # the fraction proportional to the Boltzmann factor makes (d f_entropy / d phi_i + w) the same in all compartments
    phi = p * (rng.uniform(0.1, 1, N) / p.max(1))[:, None]
    zero = flory.FreeEnergyBase(flory.FloryHugginsInteraction(N, 0.0), ent)
    if phi.min() > 1e-200:
        mu = zero.jacobian(phi.T.copy()).T + w[mix.feat]
        ctx.close(mu, np.repeat(mu[:, :1], M, axis=1), "Boltzmann factors do not belong to the entropy", rtol=1e-9, atol=1e-9)
        ctx.obs("stationary")
    vd = ce.volume_derivative(phi)
    close(ctx, vd, -(phi / mix.sizes[:, None]).sum(0), "volume derivative of the entropy")
    fz = zero.free_energy_density(phi.T.copy())
    jz = (phi.T * zero.jacobian(phi.T.copy())).sum(-1)
    ctx.close(vd, fz - jz, "volume derivative of the entropy is not f - phi f'", rtol=1e-8, atol=1e-9 * (1 + np.abs(jz).max()))
    # --- features
    pf = np.full((S, M), np.nan)
    phi0 = phi.copy()
    ce.comp_to_feat(pf, phi)
    ctx.ok(np.array_equal(phi, phi0), "comp_to_feat modified the fractions")
    want = X.to_features(mix, phi)
    close(ctx, pf, want, "fractions of features")
    pf = want
    # --- interaction
    pot = ci.potential(pf)
    close(ctx, pot, mix.chi @ pf, "interaction potential", scale=np.abs(mix.chi).max() * np.abs(pf).max())
    vdi = ci.volume_derivative(pot, pf)
    e_int = 0.5 * (pf * (mix.chi @ pf)).sum(0)
    sc = np.abs(mix.chi).max() * np.abs(pf).max() ** 2 * S
    close(ctx, vdi, e_int, "volume derivative of the interaction", scale=sc)
    ctx.close(fe.free_energy_density(phi.T.copy()), e_int + fz, "energy of the analysis class", rtol=1e-9, atol=1e-10 * (1 + sc + np.abs(fz).max()))
    ctx.close(fe.jacobian(phi.T.copy()).T, pot[mix.feat] + zero.jacobian(phi.T.copy()).T, "jacobian of the analysis class", rtol=1e-9, atol=1e-10 * (1 + sc))
    # finite differences of the energy density of one compartment (exact for a quadratic form)
    m, r = int(rng.integers(M)), int(rng.integers(S))
    h = 0.1 * (1 + np.abs(pf[:, m]).max())
    up, dn = pf.copy(), pf.copy()
    up[r, m] += h
    dn[r, m] -= h
    vu, vl = ci.volume_derivative(ci.potential(up), up), ci.volume_derivative(ci.potential(dn), dn)
    num = (vu[m] - vl[m]) / (2 * h)
    ctx.close(num, pot[r, m], "potential is not the derivative of the interaction energy", rtol=1e-8, atol=1e-10 * (1 + sc) / h)
    others = np.arange(M) != m
    ctx.close(vu[others], vdi[others], "compartments interact", rtol=0, atol=0)
    c, c0 = ci.incomp_coef(pf), ci0.incomp_coef(pf)
    ctx.close(c, X.incomp_coef(mix), "incompressibility coefficient", rtol=1e-9, atol=1e-9)
    ctx.close(np.asarray(c) - c0, (mix.shift - 1.0) * S**2, "effect of additional_chis_shift", rtol=1e-8, atol=1e-8)
    # the physical functions do not depend on options; the compiled object is a snapshot
    close(ctx, ci0.potential(pf), pot, "options change the potential")
    new = mix.copy(chi=X.rand_chi(rng, S), sizes=X.rand_sizes(rng, N))
    setattr(inter, "chis_feat" if mix.block else "chis", new.chi.copy())
    ent.sizes = new.sizes.copy()
    close(ctx, ci.potential(pf), pot, "later changes of chi reach a compiled object")
    p2 = np.zeros((N, M))
    close(ctx, ce.partition(p2, w, J), Q, "later changes of sizes reach a compiled object")
    close(ctx, p2, p, "later changes of sizes reach a compiled object")
    # compiled again, with the same options, the objects have the new parameters
    ci, ce = (fe.interaction_compiled(**opts), fe.entropy_compiled(**opts)) if rng.random() < 0.5 else (inter.compiled(**opts), ent.compiled(**opts))
    close(ctx, ci.potential(pf), new.chi @ pf, "potential after a change of chi", scale=np.abs(new.chi).max() * np.abs(pf).max())
    ctx.close(ci.incomp_coef(pf), X.incomp_coef(new), "incompressibility coefficient after a change of chi", rtol=1e-9, atol=1e-9)
    ce.partition(p2, w, J)
    close(ctx, p2, np.exp(-new.sizes[:, None] * w[mix.feat]), "Boltzmann factors after a change of sizes")
    close(ctx, ce.volume_derivative(phi), -(phi / new.sizes[:, None]).sum(0), "volume derivative of the entropy after a change of sizes")
    ctx.obs("block" if mix.block else "plain")
    ctx.obs("how:" + how)
    ctx.nontrivial("physics", mix.signature(), how, tuple(mix.ncpf.tolist()), int(mask.sum()))


def ensembles(ctx, rng, i):
    mix = X.rand_mix(rng, cons=False)
    ens, how = mix.ensemble(), "constructor"
    if rng.random() < 0.5:
        how = "setter"
        ens = mix.copy(ev=mix.ev[::-1].copy() + 0.1 if rng.random() < 0.7 else mix.ev * (1 + 10 ** rng.uniform(-7, -4, mix.N))).ensemble()
        if rng.random() < 0.5:
            ens.compiled(unused=1)
        if mix.ens == "can":
            ens.phi_means = mix.ev.copy()
        else:
            ens.scaled_activity = mix.ev.copy()
    elif mix.ens == "gc" and rng.random() < 0.5:
        how = "mu"
        mus = np.log(mix.ev / mix.sizes) / mix.sizes
        ens = flory.GrandCanonicalEnsemble.from_chemical_potential(mix.N, mus, mix.sizes.copy())
    ctx.describe(mix=mix.describe(), how=how)
    ce = ens.compiled(unused=1)
    ctx.ok(ce.num_comp == mix.N and ens.num_comp == mix.N, "number of components of an ensemble")
    w, J, mask = fields(rng, mix)
    p = np.exp(-mix.sizes[:, None] * w[mix.feat])
    Q = (p * J).sum(1) / J.sum()
    want = (mix.ev / Q if mix.ens == "can" else mix.ev)[:, None] * p * mask
    a, Q0, m0 = p.copy(), Q.copy(), mask.copy()
    inc = ce.normalize(a, Q, mask)
    ctx.ok(np.array_equal(Q, Q0) and np.array_equal(mask, m0), "normalize modified constant arguments")
    close(ctx, a, want, "normalised fractions")
    close(ctx, inc, (want.sum(0) - 1) * mask, "reported incompressibility", scale=np.abs(want).max())
    if mix.ens == "can":
        ctx.close((a * J).sum(1) / J.sum(), mix.ev, "canonical means", rtol=1e-9, atol=1e-12)
        ctx.obs("canonical")
    else:
        ctx.obs("grandcanonical")
    # a snapshot of the parameters
    if mix.ens == "can":
        ens.phi_means = np.full(mix.N, 1 / mix.N)
    else:
        ens.scaled_activity = np.full(mix.N, 7.0)
    b = p.copy()
    ce.normalize(b, Q, mask)
    ctx.ok(np.array_equal(a, b), "later changes reach a compiled ensemble")
    b = p.copy()
    ens.compiled(unused=1).normalize(b, Q, mask)
    close(ctx, b, ((1 / mix.N) / Q if mix.ens == "can" else np.full(mix.N, 7.0))[:, None] * p * mask, "normalised fractions after a change of the ensemble")
    ctx.obs("how:" + how)
    ctx.nontrivial("ensemble", mix.signature(), how, int(mask.sum()))


def cons_energy(c, mult, pf, J):
    """The documented constraint energy."""
    res = c.Cs @ pf - c.Ts[:, None]
    if c.kind == "local":
        return (J * (mult * res + c.kappa * res**2)).sum()
    tot = (res * J).sum(1)
    return (mult * tot + c.kappa * tot**2).sum()


def constraint(ctx, rng, i):
    mix = X.rand_mix(rng, cons=[str(rng.choice(["local", "global"]))])
    c, M, S = mix.cons[0], mix.M, mix.S
    if rng.random() < 0.3:
        c.ratio, c.kappa = float(10 ** rng.uniform(-2, 1)), float(10 ** rng.uniform(-3, 2.5))
    obj, how = c.make(), "constructor"
    kw = dict(constraint_acceptance_ratio=c.ratio, constraint_elasticity=c.kappa, interval=3)
    if c.ratio == 1 and rng.random() < 0.5:
        del kw["constraint_acceptance_ratio"]
    if c.kappa == 1 and rng.random() < 0.5:
        del kw["constraint_elasticity"]
    if rng.random() < 0.5:
        how = "setter"
        obj = X.Cons(c.kind, rng.normal(size=c.Cs.shape), rng.normal(size=c.Ts.shape)).make()
        if rng.random() < 0.3:
            obj = X.Cons(c.kind, c.Cs * (1 + 1e-6), c.Ts + 1e-7).make()
        if rng.random() < 0.5:
            obj.compiled(**kw)
        obj.Cs = c.Cs.copy()
        obj.Ts = c.Ts.copy()
    cc = obj.compiled(**kw)
    rival = obj.compiled(**kw) if rng.random() < 0.3 else None  # another object of the same constraint
    if rival is not None:
        rival.initialize(M)
    ctx.describe(mix=mix.describe(), how=how, kw=kw)
    ctx.ok(cc.num_feat == S and obj.num_feat == S, "number of features of a constraint")
    if rng.random() < 0.4:  # an earlier life
        cc.initialize(int(rng.integers(1, 9)))
    cc.initialize(M)
    mult = np.zeros((len(c.Ts), M)) if c.kind == "local" else np.zeros(len(c.Ts))
    obj.Cs = rng.normal(size=c.Cs.shape)  # later changes do not matter
    obj.Ts = rng.normal(size=c.Ts.shape)
    for k in range(int(rng.integers(1, 7))):
        w, J, mask = fields(rng, mix)
        if k and rng.random() < 0.3:
            J, mask = lastJ, lastm
        lastJ, lastm = J, mask
        pf = rng.dirichlet(np.ones(S), size=M).T.copy() * mask
        if rng.random() < 0.2:
            pf = pf * rng.uniform(0.5, 1.5)
        keep = (pf.copy(), J.copy(), mask.copy())
        cc.prepare(pf, J, mask)
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(keep, (pf, J, mask))), "prepare modified its arguments")
        pot, vd = np.array(cc.potential), np.array(cc.volume_derivative)
        res = c.Cs @ pf - c.Ts[:, None]
        if c.kind == "local":
            res = res * mask
            wp = c.Cs.T @ (mult + 2 * c.kappa * res) * mask
            wv = (res * (mult + c.kappa * res)).sum(0) * mask
            rr = res
        else:
            tot = (res * J).sum(1)
            wp = np.outer(c.Cs.T @ (mult + 2 * c.kappa * tot), mask)
            wv = ((mult + 2 * c.kappa * tot) @ res) * mask
            rr = tot / J.sum()
        sc = np.abs(c.Cs).max() * (np.abs(mult).max() + c.kappa * (np.abs(res).max() + (np.abs(tot).max() if c.kind == "global" else 0)))
        ctx.ok(pot.shape == (S, M) and vd.shape == (M,), "shape of constraint potentials", got=[pot.shape, vd.shape])
        ctx.close(pot, wp, "constraint potential", rtol=1e-9, atol=1e-11 * (1 + sc))
        ctx.close(vd, wv, "volume derivative of the constraint", rtol=1e-9, atol=1e-11 * (1 + sc * np.abs(res).max()))
        # derivatives of the documented energy (quadratic: central differences are exact)
        m = int(rng.choice(np.where(mask > 0)[0]))
        r = int(rng.integers(S))
        h = 0.3
        e = np.zeros((S, M))
        e[r, m] = h
        num = (cons_energy(c, mult, pf + e, J) - cons_energy(c, mult, pf - e, J)) / (2 * h) / J[m]
        tolE = 1e-11 * (1 + np.abs(cons_energy(c, np.abs(mult), np.abs(pf) + h, J)) * 10) / h / J[m]
        ctx.ok(abs(num - pot[r, m]) < 1e-7 * (1 + abs(num)) + tolE, "constraint potential is not the derivative of the constraint energy", got=pot[r, m], expected=num)
        hj = 0.3 * J[m]
        d = np.zeros(M)
        d[m] = hj
        num = (cons_energy(c, mult, pf, J + d) - cons_energy(c, mult, pf, J - d)) / (2 * hj)
        ctx.ok(abs(num - vd[m]) < 1e-7 * (1 + abs(num)) + tolE * h * J[m] / hj, "volume derivative is not the derivative of the constraint energy", got=vd[m], expected=num)
        step = float(rng.choice([0.0, 0.1, 1.0, 5.0]))
        if rival is not None:
            rival.prepare(rng.random((S, M)), np.ones(M), np.ones(M))
            rival.evolve(1.0, np.ones(M))
            ctx.obs("rivals")
            ctx.ok(np.array_equal(np.array(cc.potential), pot) and np.array_equal(np.array(cc.volume_derivative), vd), "compiled objects of one constraint share their state")
            cc.prepare(pf, J, mask)
        out = cc.evolve(step, mask)
        ctx.close(out, np.abs(rr).max(), "reported residue", rtol=1e-9, atol=1e-12 * (1 + np.abs(rr).max()))
        mult = mult + step * c.ratio * rr
        if c.kind == "local":
            mult = mult * mask
        if step:
            ctx.obs("evolved")
        if mask.min() == 0:
            ctx.obs("masked")
        ctx.obs("sequence")
    cc.initialize(M)  # forgets the multipliers
    J, mask = np.ones(M), np.ones(M)
    pf = rng.dirichlet(np.ones(S), size=M).T.copy()
    cc.prepare(pf, J, mask)
    res = c.Cs @ pf - c.Ts[:, None]
    tot = res if c.kind == "local" else np.repeat(res.sum(1, keepdims=True), M, axis=1)
    ctx.close(np.array(cc.potential), c.Cs.T @ (2 * c.kappa * tot), "initialize keeps old multipliers", rtol=1e-9, atol=1e-10 * (1 + M))
    ctx.obs(c.kind)
    ctx.obs("how:" + how)
    ctx.nontrivial("constraint", c.kind, c.Cs.shape, M, c.kappa, c.ratio, how)


def none(ctx, rng, i):
    """No constraint, and agreement of the free energy with a finder's ingredients."""
    S, M = int(rng.integers(1, 7)), int(rng.integers(1, 30))
    obj = flory.NoConstraint(S)
    cc = obj.compiled(constraint_elasticity=2.0)
    ctx.describe(S=S, M=M)
    ctx.ok(cc.num_feat == S and obj.num_feat == S, "number of features")
    cc.initialize(M)
    for _ in range(3):
        pf, J, mask = rng.random((S, M)), rng.random(M), (rng.random(M) < 0.7).astype(float)
        cc.prepare(pf, J, mask)
        ctx.ok(np.shape(cc.potential) == (S, M) and not np.any(cc.potential) and np.shape(cc.volume_derivative) == (M,) and not np.any(cc.volume_derivative), "no constraint has an effect")
        ctx.ok(cc.evolve(1.0, mask) == 0, "no constraint has a residue")
    ctx.obs("none")
    ctx.nontrivial("none", S, M)


def both(fn, tag):
    def run(ctx, rng, i):
        fn(ctx, rng, i)
        ctx.obs(tag)

    return run


SUITES = []
for lane, k in (("py", 3), ("bc", 1)):
    SUITES += [
        Suite(f"physics-{lane}", lane, both(physics, lane), quick=900 * k, thorough=15000 * k, shards_thorough=4, need=["block", "plain", "via_free_energy", "how:setter", "how:free energy", "how:constructor", "stationary"]),
        Suite(f"ensembles-{lane}", lane, both(ensembles, lane), quick=1000 * k, thorough=15000 * k, shards_thorough=2, need=["canonical", "grandcanonical", "how:setter", "how:mu"]),
        Suite(f"constraint-{lane}", lane, both(constraint, lane), quick=700 * k, thorough=12000 * k, shards_thorough=4, need=["local", "global", "masked", "evolved", "rivals", "how:setter"]),
        Suite(f"none-{lane}", lane, both(none, lane), quick=100, thorough=500, need=["none"]),
    ]
