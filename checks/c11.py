"""C11: reused finders behave like fresh ones; rejected changes do nothing."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory
from lib.spy import spied

RULE = ("Random histories of one finder (runs, replacements of each ingredient with and without options, reinitialisations, rejected replacements and "
        "fields, runs interrupted by an injected exception at a random ingredient call, exhausted budgets). A model of the state predicts each recorded "
        "step; at the end a fresh finder with the current ingredients, fields and generator state must behave identically. Non-trivial: a history with at "
        "least one replacement or rejection before a compared run; distinct by structure and the sequence of operations.")
ASSUMPTIONS = ["after an interrupted run fields are reinitialised before judging", "steps with volumes within 1e-8 of the kill threshold are not judged"]


class Interrupt(Exception):
    pass


def new_ingredient(rng, cur, kind, tape):
    """A new ingredient of the right size; returns (object, changes of the model)."""
    if kind == "interaction":
        chi = X.rand_chi(rng, cur.S)
        if cur.block and rng.random() < 0.5:
            ncpf = cur.ncpf
            o = flory.FloryHugginsBlockInteraction(cur.S, chi.copy(), ncpf.copy())
        else:
            o = flory.FloryHugginsInteraction(cur.S, chi.copy())
        ch = dict(chi=chi)
    elif kind == "entropy":
        sizes = X.rand_sizes(rng, cur.N)
        if cur.block:
            ncpf = rng.permutation(cur.ncpf)
            o = flory.IdealGasPolydispersedEntropy(cur.S, sizes.copy(), ncpf.copy())
            ch = dict(sizes=sizes, ncpf=ncpf)
        else:
            o = flory.IdealGasEntropy(cur.N, sizes.copy())
            ch = dict(sizes=sizes)
    else:
        if rng.random() < 0.5:
            ev = X.rand_simplex(rng, cur.N)
            o, ch = flory.CanonicalEnsemble(cur.N, ev.copy()), dict(ens="can", ev=ev)
        else:
            ev = rng.uniform(0.05, 1.5, cur.N)
            o, ch = flory.GrandCanonicalEnsemble(cur.N, ev.copy()), dict(ens="gc", ev=ev)
    return (spied(o, kind, tape) if tape is not None else o), ch


def wrong(ctx, rng, f, cur):
    """Something that must be rejected; returns its name."""
    from flory.common import ComponentNumberError, FeatureNumberError

    d = int(rng.choice([1, 2]))
    if cur.S > 1 and rng.random() < 0.4:
        d = -int(rng.integers(1, min(cur.S, max(cur.N, 2))))
        if cur.N + d < 1:
            d = 1
    k = str(rng.choice(["interaction", "entropy", "entropy-comps", "ensemble", "constraint", "constraints", "omegas", "phis", "individual", "field-1d"]))
    S, N = cur.S, cur.N
    opts = {"if_reset_revive": bool(rng.random() < 0.7)}
    if k == "interaction":
        ctx.raises(FeatureNumberError, lambda: f.set_interaction(flory.FloryHugginsInteraction(S + d, 1.0), **opts), "interaction of the wrong size")
    elif k == "entropy":
        if cur.block:
            sizes, ncpf = np.ones(N), np.append(np.ones(S, int), N - S) if N > S else None
            if ncpf is None:
                return None
            ctx.raises(FeatureNumberError, lambda: f.set_entropy(flory.IdealGasPolydispersedEntropy(S + 1, sizes, ncpf), **opts), "entropy with the wrong number of features")
        else:
            ctx.raises((ComponentNumberError, FeatureNumberError), lambda: f.set_entropy(flory.IdealGasEntropy(N + d), **opts), "entropy of the wrong size")
    elif k == "entropy-comps":
        ncpf = cur.ncpf.copy()
        ncpf[rng.integers(S)] += abs(d)
        ctx.raises(ComponentNumberError, lambda: f.set_entropy(flory.IdealGasPolydispersedEntropy(S, 1.0, ncpf), **opts), "entropy with the wrong number of components")
    elif k == "ensemble":
        ens = flory.CanonicalEnsemble(N + d, np.full(N + d, 1 / (N + d))) if rng.random() < 0.5 else flory.GrandCanonicalEnsemble(N + d, np.ones(N + d))
        ctx.raises(ComponentNumberError, lambda: f.set_ensemble(ens, **opts), "ensemble of the wrong size")
    elif k in ("constraint", "constraints"):
        cls = flory.LinearLocalConstraint if rng.random() < 0.5 else flory.LinearGlobalConstraint
        bad = cls(S + d, np.ones((1, S + d)), np.zeros(1))
        if k == "constraints":
            good = cls(S, np.ones((1, S)), np.ones(1))
            bad = [good, bad] if rng.random() < 0.5 else (bad, good)
        ctx.raises(FeatureNumberError, lambda: f.set_constraints(bad, **opts), "constraint of the wrong size")
    elif k == "individual":
        cs = [flory.LinearLocalConstraint(S, np.ones((1, S)), np.ones(1)) for _ in range(2)]
        ctx.raises(ValueError, lambda: f.set_constraints(cs, kwargs_individual=[{}]), "options for fewer constraints than given")
    elif k in ("omegas", "phis"):
        shape = [(S + d, cur.M), (S, cur.M + abs(d)), (cur.M, S) if S != cur.M else (S, cur.M + 1), (S, 1) if cur.M > 1 else (S, 2), (1, S, cur.M)][rng.integers(5)]
        func = f.reinitialize_from_omegas if k == "omegas" else f.reinitialize_from_phis
        ctx.raises(ValueError, lambda: func(np.full(shape, 0.3)), "field of the wrong size", shape=shape)
    else:
        func = f.reinitialize_from_omegas if rng.random() < 0.5 else f.reinitialize_from_phis
        ctx.raises(ValueError, lambda: func(np.full(cur.M if cur.M != 1 else 2, 0.1)), "one-dimensional field")
    return k


def rand_options(rng):
    o = {}
    if rng.random() < 0.5:
        o["constraint_acceptance_ratio"] = float(rng.choice([0.2, 0.7, 1.5]))
    if rng.random() < 0.5:
        o["constraint_elasticity"] = float(rng.choice([0.0, 0.4, 2.0]))
    return o


def apply_options(c, opts):
    c.ratio = opts.get("constraint_acceptance_ratio", c.ratio)
    c.kappa = opts.get("constraint_elasticity", c.kappa)


def history(ctx, rng, i):
    mix = X.rand_mix(rng, maxM=8)
    if rng.random() < 0.4:
        mix = mix.copy(M=max(3, mix.M), thr=float(rng.choice([0.0, 0.3])), ub=0.2, aJ=0.2, aw=min(mix.aw, 0.02), revive=int(rng.choice([0, 1, 3])))
    defaults = {"additional_chis_shift": mix.shift,
                "constraint_acceptance_ratio": mix.cons[0].ratio if mix.cons else float(rng.choice([0.3, 1.0, 2.0])),
                "constraint_elasticity": mix.cons[0].kappa if mix.cons else float(rng.choice([0.0, 1.0, 3.0]))}
    rec = Mon.Record(mix, int(rng.integers(1 << 30)), **defaults)
    f, tape = rec.finder, rec.tape
    cur, full = mix.copy(), mix.revive * mix.M
    st, budget, log, replaced = X.fresh_state(mix, f.omegas), full, [], False
    ctx.describe(mix=mix.describe(), log=log)
    for stage in range(int(rng.integers(3, 9))):
        act = str(rng.choice(["run", "run", "set", "set", "reject", "reinit", "interrupt", "partial"]))
        w0, d0 = f.omegas.copy(), f.diagnostics
        if act == "run":
            n = int(rng.integers(1, 14))
            try:
                ph, steps = rec.run(max_steps=n, interval=int(rng.integers(1, n + 2)), tolerance=1e-300)
            except (ValueError, ArithmeticError) as e:
                if not blown(e):
                    raise
                return ctx.obs("diverged")
            before = ctx.oracles
            st, budget, ok = Mon.lifecycle(ctx, cur, st, Mon.step_views(steps), budget)
            if not ok:
                return
            ctx.ok(f.diagnostics["revive_count_left"] == budget, "remaining revival budget", got=f.diagnostics["revive_count_left"], expected=budget, log=log)
            if full > 0 and budget <= 0:
                ctx.obs("budget_exhausted")
            log.append("run")
            if replaced:
                ctx.obs("runs_after_changes")
            continue
        if act == "set":
            kind = str(rng.choice(["interaction", "entropy", "ensemble", "constraints"]))
            reset = bool(rng.random() < 0.6)
            kw = {} if reset and rng.random() < 0.5 else {"if_reset_revive": reset}
            if kind == "constraints":
                cl = X.rand_cons(rng, cur.S) if rng.random() < 0.8 else []
                for c in cl:
                    apply_options(c, defaults)
                common = rand_options(rng) if rng.random() < 0.6 else {}
                objs = [spied(c.make(), f"constraint{k}", tape) for k, c in enumerate(cl)]
                for c in cl:
                    apply_options(c, common)
                how = "default"
                if len(cl) == 1 and rng.random() < 0.5:
                    objs, ind = objs[0], rand_options(rng)
                    if rng.random() < 0.5:
                        apply_options(cl[0], ind)
                        kw["kwargs_individual"] = ind
                    how = "single"
                elif cl and rng.random() < 0.5:
                    ind = [rand_options(rng) for _ in cl]
                    for c, o in zip(cl, ind):
                        apply_options(c, o)
                    kw["kwargs_individual"] = ind if rng.random() < 0.5 else tuple(ind)
                    how = "individual"
                if not cl:
                    objs = [None, [], ()][rng.integers(3)]
                    how = "none"
                f.set_constraints(objs, **kw, **common)
                cur = cur.copy(cons=cl)
                st = X.State(st.w, st.J, X.fresh_state(cur, st.w).mult)
                log.append(f"set-constraints-{how}" + ("-opts" if common else ""))
            else:
                o, ch = new_ingredient(rng, cur, kind, tape)
                extra = {}
                if kind == "interaction":
                    ch["shift"] = defaults["additional_chis_shift"]
                    if rng.random() < 0.5:
                        extra["additional_chis_shift"] = ch["shift"] = float(rng.choice([0.2, 1.7, 4.0]))
                elif rng.random() < 0.3:  # options of other ingredients must be ignored, now and later
                    extra = {"additional_chis_shift": 7.0, **rand_options(rng)}
                getattr(f, f"set_{kind}")(o, **kw, **extra)
                cur = cur.copy(**ch)
                log.append(f"set-{kind}" + ("-opts" if extra else ""))
            if reset:
                budget = full
            replaced = True
            ctx.ok(np.array_equal(f.omegas, w0), "replacing an ingredient altered the fields", log=log)
        elif act == "partial":  # only the constraints, or only the budget
            if rng.random() < 0.5:
                f.reinitialize_constraint()
                st = X.State(st.w, st.J, X.fresh_state(cur, st.w).mult)
                log.append("reinitialize-constraint")
                ctx.obs("constraints_reinitialised", bool(cur.cons))
            else:
                f.reset_revive()
                budget = full
                log.append("reset-revive")
                ctx.obs("budget_reset")
            ctx.ok(np.array_equal(f.omegas, w0) and f.diagnostics == d0, "resetting constraints or budget altered fields or diagnostics", log=log)
        elif act == "reject":
            k = wrong(ctx, rng, f, cur)
            if k is None:
                continue
            log.append("reject-" + k)
            ctx.obs("rejected")
            ctx.obs("rejected_" + k)
            replaced = True
            ctx.ok(np.array_equal(f.omegas, w0) and f.diagnostics == d0, "a rejected change altered fields or diagnostics", log=log)
        else:
            if act == "interrupt":
                left = int(rng.integers(0, 60))

                def hook(ev):
                    nonlocal left
                    left -= 1
                    if left < 0:
                        raise Interrupt

                tape.hook = hook
                try:
                    f.run(max_steps=30, interval=7, tolerance=1e-300)
                except Interrupt:
                    ctx.obs("interrupted")
                except (ValueError, ArithmeticError) as e:
                    if not blown(e):
                        raise
                finally:
                    tape.hook = None
                log.append("interrupt")
                if rng.random() < 0.3:  # changes between interruption and reinitialisation
                    o, ch = new_ingredient(rng, cur, "ensemble", tape)
                    f.set_ensemble(o)
                    cur = cur.copy(**ch)
            how = str(rng.choice(["omegas", "phis", "random"]))
            if how == "omegas":
                w = rng.normal(0, cur.std, (cur.S, cur.M))
                f.reinitialize_from_omegas(w)
                ctx.ok(np.array_equal(f.omegas, w), "fields were not taken over")
            elif how == "phis":
                p = rng.uniform(0.05, 0.6, (cur.S, cur.M))
                f.reinitialize_from_phis(p)
            else:
                f.reinitialize_random()
            st, budget = X.fresh_state(cur, f.omegas), full
            log.append("reinit-" + how)
    if not replaced:
        return
    # a fresh finder with the current ingredients
    same_opts = len({(c.ratio, c.kappa) for c in cur.cons}) <= 1
    if same_opts:
        o = dict(defaults, additional_chis_shift=cur.shift)
        if cur.cons:
            o.update(constraint_acceptance_ratio=cur.cons[0].ratio, constraint_elasticity=cur.cons[0].kappa)
        how = str(rng.choice(["omegas", "phis"]))
        w = rng.normal(0, cur.std, (cur.S, cur.M)) if how == "omegas" else rng.uniform(0.05, 0.6, (cur.S, cur.M))
        seed = int(rng.integers(1 << 30))
        rec.rng.gen.bit_generator.state = np.random.default_rng(seed).bit_generator.state
        getattr(f, "reinitialize_from_" + how)(w.copy())
        # the fresh finder gets the same generator state after it consumed numbers for its creation
        gen = np.random.default_rng(1)
        g = cur.finder(gen, **o)
        gen.bit_generator.state = rec.rng.gen.bit_generator.state
        getattr(g, "reinitialize_from_" + how)(w.copy())
        for part in range(2):
            n = int(rng.integers(1, 20))
            try:
                pf, pg = (x.run(max_steps=n, interval=n, tolerance=1e-300) for x in (f, g))
            except (ValueError, ArithmeticError) as e:
                if not blown(e):
                    raise
                return ctx.obs("diverged")
            keys = ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")
            for x, y, name in ((f.omegas, g.omegas, "fields"), (pf.volumes, pg.volumes, "volumes"), (pf.fractions, pg.fractions, "compositions"),
                               ([f.diagnostics[k] for k in keys], [g.diagnostics[k] for k in keys], "diagnostics")):
                ctx.ok(np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True), f"a reused finder differs from a fresh one: {name}", got=x, expected=y, log=log)
        ctx.obs("fresh_compared")
    ctx.nontrivial(mix.signature(), tuple(log))
    for x in log:
        ctx.obs("did_" + x)


def jit(ctx, rng, i):
    """Machine code without spies: reused finder against a fresh one."""
    kinds = [["local", "global"], ["local"]][ctx.shard % 2]
    block = bool(ctx.shard % 2)
    mk = lambda M=None: X.rand_mix(rng, maxM=8, ens="can", block=block, cons=kinds)
    mix = mk()
    gen = np.random.default_rng(int(rng.integers(1 << 30)))
    f = mix.finder(gen)
    ctx.describe(mix=mix.describe())
    for _ in range(int(rng.integers(1, 4))):
        f.run(max_steps=int(rng.integers(1, 300)), interval=50, tolerance=1e-300)
        if rng.random() < 0.3:
            f.set_interaction(flory.FloryHugginsInteraction(mix.S, X.rand_chi(rng, mix.S)))
        if rng.random() < 0.5:
            wrong(ctx, rng, f, mix)
    cur = mix.copy(chi=X.rand_chi(rng, mix.S), sizes=X.rand_sizes(rng, mix.N), ev=X.rand_simplex(rng, mix.N))
    ratio, kappa = cur.cons[0].ratio, cur.cons[0].kappa
    cur.cons = X.rand_cons(rng, mix.S, kinds)
    for c in cur.cons:
        c.ratio, c.kappa = ratio, kappa
    w = rng.normal(0, cur.std, (cur.S, cur.M))
    sets = [lambda: f.set_interaction(cur.interaction()), lambda: f.set_entropy(cur.entropy()), lambda: f.set_ensemble(cur.ensemble()),
            lambda: f.set_constraints(cur.constraints()), ]
    for k in rng.permutation(4):
        sets[k]()
    f.reinitialize_from_omegas(w)
    gen2 = np.random.default_rng(3)
    g = cur.finder(gen2)
    g.reinitialize_from_omegas(w)
    gen2.bit_generator.state = gen.bit_generator.state
    n = int(rng.integers(1, 60))
    pf, pg = (x.run(max_steps=n, interval=n, tolerance=1e-300) for x in (f, g))
    for x, y, name in ((f.omegas, g.omegas, "fields"), (pf.volumes, pg.volumes, "volumes"), (pf.fractions, pg.fractions, "compositions")):
        ctx.ok(np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True), f"a reused finder differs from a fresh one: {name}", got=x, expected=y)
    ctx.obs("jit_cases")
    ctx.nontrivial("jit", cur.signature())


def constructor(ctx, rng, i):
    """Ingredients that do not fit together are rejected by the constructor."""
    from flory.common import ComponentNumberError, FeatureNumberError

    mix = X.rand_mix(rng, maxM=6)
    k = int(rng.integers(4))
    parts = {}
    d = int(rng.choice([1, 2, 3]))
    if mix.S > 1 and rng.random() < 0.4:
        d = -int(rng.integers(1, mix.S))
        if mix.N + d < 1:
            d = 1
    if k == 0:
        parts["interaction"] = flory.FloryHugginsInteraction(mix.S + d, 1.0)
    elif k == 1:
        parts["ensemble"] = flory.CanonicalEnsemble(mix.N + d, np.full(mix.N + d, 1 / (mix.N + d)))
    elif k == 2:
        cls = flory.LinearLocalConstraint if rng.random() < 0.5 else flory.LinearGlobalConstraint
        bad = cls(mix.S + d, np.ones((1, mix.S + d)), np.zeros(1))
        good = cls(mix.S, np.ones((1, mix.S)), np.ones(1))
        parts["constraints"] = [bad, [bad], [good, bad], (bad, good)][rng.integers(4)]
    else:
        parts["entropy"] = flory.IdealGasEntropy(mix.S + d)
        parts["ensemble"] = flory.CanonicalEnsemble(mix.S + d, np.full(mix.S + d, 1 / (mix.S + d)))
    ctx.describe(mix=mix.describe(), kind=k, d=d)
    ctx.raises((ComponentNumberError, FeatureNumberError), lambda: mix.finder(1, parts), "a finder with incompatible ingredients", kind=k)
    ctx.obs("constructor_rejections")
    ctx.nontrivial("constructor", k, mix.signature())


SUITES = [
    Suite("jit", "jit", jit, quick=500, thorough=6000, shards=2, shards_thorough=2, need=["jit_cases"]),
    Suite("history", "py", history, quick=3000, thorough=40000, shards=5, shards_thorough=8,
          need=["runs_after_changes", "rejected", "interrupted", "fresh_compared", "budget_exhausted", "did_set-interaction-opts", "did_set-constraints-individual",
                "did_set-constraints-none", "did_set-constraints-single", "did_set-entropy", "did_set-ensemble", "revivals"] +
          ["rejected_" + k for k in ("interaction", "entropy", "ensemble", "constraint", "constraints", "omegas", "phis", "individual")]),
    Suite("constructor", "py", constructor, quick=300, thorough=3000, shards=1, need=["constructor_rejections"]),
]
