"""C09: finders own their data."""
import copy

import numpy as np

from lib import energies as En
from lib import mix as X
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Twin finders with equal seeds: around one of them ingredients, source arrays, arrays passed in or returned, and other finders sharing the "
        "ingredients are modified or used at random moments of a random history; both must compute the same, and no supplied or earlier returned "
        "object may change; results after other use of the library equal those of a forked child without it. Non-trivial: a case with at least one modification that took effect on its object; distinct by mixture structure and the "
        "set of modifications.")
ASSUMPTIONS = ["the random generator handed to a finder is shared on purpose and not modified", "finder.omegas is documented read-only and not written to",
               "arrays handed to Phases by the user are not copied by design; only phases returned by the library are judged"]


def scribble(rng, a):
    """Modify an array in place; True if it was possible."""
    a = np.asarray(a)
    if a.size == 0 or not a.flags.writeable:
        return False
    if a.dtype.kind == "i":
        a += 1
    else:
        a *= rng.uniform(0.3, 3)
        a += rng.uniform(0.1, 1)
    return True


def build(rng, mix):
    """Ingredients and the arrays they were built from."""
    src = {"chi": mix.chi.copy(), "sizes": mix.sizes.copy(), "ev": mix.ev.copy(), "ncpf": mix.ncpf.astype(np.int64),
           "cons": [(c.Cs.copy(), c.Ts.copy()) for c in mix.cons]}
    if mix.block:
        inter = flory.FloryHugginsBlockInteraction(mix.S, src["chi"], src["ncpf"])
        ent = flory.IdealGasPolydispersedEntropy(mix.S, src["sizes"], src["ncpf"])
    else:
        inter = flory.FloryHugginsInteraction(mix.S, src["chi"])
        ent = flory.IdealGasEntropy(mix.N, src["sizes"])
    ens = (flory.CanonicalEnsemble if mix.ens == "can" else flory.GrandCanonicalEnsemble)(mix.N, src["ev"])
    if rng.random() < 0.5:  # the same values through setters
        if mix.block:
            inter.chis_feat = src["chi"]
        else:
            inter.chis = src["chi"]
        ent.sizes = src["sizes"]
        if mix.ens == "can":
            ens.phi_means = src["ev"]
        else:
            ens.scaled_activity = src["ev"]
    cons = []
    for c, (C, T) in zip(mix.cons, src["cons"]):
        cls = flory.LinearLocalConstraint if c.kind == "local" else flory.LinearGlobalConstraint
        o = cls(mix.S, C, T)
        if rng.random() < 0.5:
            o.Cs, o.Ts = C, T
        cons.append(o)
    return src, {"interaction": inter, "entropy": ent, "ensemble": ens, "constraints": cons or None}


def params(parts):
    """Copies of all parameters of ingredients."""
    out = []
    for o in [parts["interaction"], parts["entropy"], parts["ensemble"]] + (parts["constraints"] or []):
        for n in ("chis", "chis_feat", "sizes", "num_comp_per_feat", "phi_means", "scaled_activity", "Cs", "Ts", "num_comp", "num_feat"):
            if hasattr(o, n):
                out.append(np.array(getattr(o, n)))
    return out


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def modify(ctx, rng, mix, src, parts, other_runs):
    """One random modification around a finder. Returns its name, or None if nothing changed."""
    k = str(rng.choice(["src-chi", "src-sizes", "src-ev", "src-ncpf", "src-cons", "attr-chi", "attr-sizes", "attr-ev", "attr-cons", "set-chi", "set-sizes",
                        "set-ev", "set-cons", "random-chi", "other"]))
    inter, ent, ens, cons = parts["interaction"], parts["entropy"], parts["ensemble"], parts["constraints"] or []
    if k in ("src-chi", "src-sizes", "src-ev", "src-ncpf"):
        return k if scribble(rng, src[k[4:]]) else None
    if k == "src-cons" and cons:
        return k if scribble(rng, src["cons"][rng.integers(len(cons))][rng.integers(2)]) else None
    if k == "attr-chi":
        names = ["chis"] + (["chis_feat"] if mix.block else [])
        return k if all([scribble(rng, getattr(inter, n)) for n in names]) else None
    if k == "attr-sizes":
        return k if scribble(rng, ent.sizes) else None
    if k == "attr-ev":
        return k if scribble(rng, ens.phi_means if mix.ens == "can" else ens.scaled_activity) else None
    if k == "attr-cons" and cons:
        o = cons[rng.integers(len(cons))]
        return k if scribble(rng, o.Cs if rng.random() < 0.5 else o.Ts) else None
    if k == "set-chi":
        setattr(inter, "chis_feat" if mix.block else "chis", X.rand_chi(rng, mix.S))
        return k
    if k == "set-sizes":
        ent.sizes = X.rand_sizes(rng, mix.N)
        return k
    if k == "set-ev":
        setattr(ens, "phi_means" if mix.ens == "can" else "scaled_activity", rng.uniform(0.1, 1, mix.N))
        return k
    if k == "set-cons" and cons:
        o = cons[rng.integers(len(cons))]
        if rng.random() < 0.5:
            o.Cs = rng.normal(0, 1, o.Cs.shape)
        else:
            o.Ts = rng.normal(0, 1, o.Ts.shape)
        return k
    if k == "random-chi" and not mix.block:
        if rng.random() < 0.5:
            inter.set_random_chis(1, 2, rng=np.random.default_rng(1))
        else:
            inter.set_uniform_chis(3)
        return k
    if k == "other":  # another finder shares the ingredients
        try:
            g = mix.finder(int(rng.integers(1000)), parts)
            g.run(max_steps=int(rng.integers(1, 12)), tolerance=1e-300)
            if rng.random() < 0.5:
                g.set_interaction(parts["interaction"])
                g.set_constraints(parts["constraints"])
                g.run(max_steps=3, tolerance=1e-300)
        except (ValueError, ArithmeticError) as e:  # the ingredients may have been changed to something that does not work
            if not blown(e):
                raise
        return k
    return None


def observe(f, ph):
    return [np.array(ph.volumes), np.array(ph.fractions), f.omegas.copy(), np.array([f.diagnostics[k] for k in
            ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")], float)]


def ownership(ctx, rng, i, combo=None):
    if combo is None:
        mix = X.rand_mix(rng, maxM=8)
    else:
        mix = X.rand_mix(rng, maxM=8, ens=combo[0], block=combo[1], cons=list(combo[2]) if combo[2] else False)
    seed = int(rng.integers(1 << 30))
    src, parts = build(rng, mix)
    twin_parts = build(rng, mix)[1]
    snap, inputs = params(parts), copy.deepcopy(src)
    a, b = mix.finder(seed, parts), mix.finder(seed, twin_parts)

    def untouched(what):
        ctx.ok(same(params(parts), snap), f"{what} modified an ingredient")
        flat = lambda s: [s["chi"], s["sizes"], s["ev"], s["ncpf"]] + [x for c in s["cons"] for x in c]
        ctx.ok(same(flat(src), flat(inputs)), f"{what} modified an array of the user")

    untouched("creating a finder")
    log, kept = [], []
    ctx.describe(mix=mix.describe(), log=log)
    modified = False
    for stage in range(int(rng.integers(2, 6))):
        act = str(rng.choice(["run", "run", "reinit", "phis", "set", "modify", "modify", "modify", "scribble-result"]))
        if act == "modify":
            m = modify(ctx, rng, mix, src, parts, None)
            if m and m.startswith("src-"):
                ctx.ok(same(params(parts), snap), "modifying an array of the user changed the ingredient built from it", which=m)
            if m:
                log.append(m)
                modified = True
                snap, inputs = params(parts), copy.deepcopy(src)
            continue
        if act == "scribble-result" and kept:
            k = kept.pop(int(rng.integers(len(kept))))
            if scribble(rng, k[0].volumes) and scribble(rng, k[0].fractions):
                k[1]["steps"] = -7
                k[1].clear()
                log.append("result")
                modified = True
                ctx.obs("results_modified")
            continue
        if act in ("reinit", "phis"):
            w = rng.normal(0, mix.std, (mix.S, mix.M)) if act == "reinit" else rng.uniform(0.05, 0.6, (mix.S, mix.M))
            w0 = w.copy()
            for f, x in ((a, w), (b, w.copy())):
                (f.reinitialize_from_omegas if act == "reinit" else f.reinitialize_from_phis)(x)
            if rng.random() < 0.5:  # the array stays ours
                scribble(rng, w)
                log.append("field")
                modified = True
            else:
                n = int(rng.integers(1, 5))
                a.run(max_steps=n, tolerance=1e-300)
                b.run(max_steps=n, tolerance=1e-300)
                ctx.ok(np.array_equal(w, w0), "a run modified the field array of the user")
            log.append(act)
            continue
        if act == "set":
            # set the (possibly modified) ingredient of the twin in both; then keep modifying ours
            src2, new = build(rng, mix)
            a.set_interaction(new["interaction"])
            a.set_entropy(new["entropy"])
            a.set_ensemble(new["ensemble"])
            a.set_constraints(new["constraints"])
            t = build(rng, mix)[1]
            b.set_interaction(t["interaction"])
            b.set_entropy(t["entropy"])
            b.set_ensemble(t["ensemble"])
            b.set_constraints(t["constraints"])
            src, parts = src2, new
            snap, inputs = params(parts), copy.deepcopy(src)
            log.append("set")
            continue
        n = int(rng.integers(1, 20))
        log.append(f"run{n}")
        try:
            pa = a.run(max_steps=n, tolerance=1e-300, interval=n)
            pb = b.run(max_steps=n, tolerance=1e-300, interval=n)
        except (ValueError, ArithmeticError) as e:
            if not blown(e):
                raise
            return ctx.obs("diverged")
        oa, ob = observe(a, pa), observe(b, pb)
        for x, y, name in zip(oa, ob, ("volumes", "fractions", "fields", "diagnostics")):
            ctx.ok(np.array_equal(x, y, equal_nan=True) or np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True),
                   f"{name} depend on objects outside of the finder", log=log)
        untouched("a run")
        # earlier results stay
        for ph, diag, v, fr, dg in kept:
            ctx.ok(np.array_equal(ph.volumes, v, equal_nan=True) and np.array_equal(ph.fractions, fr, equal_nan=True), "a later run changed phases returned earlier")
            ctx.ok(diag.keys() == dg.keys() and all(diag[q] == dg[q] or diag[q] != diag[q] for q in dg), "a later run changed diagnostics returned earlier")
            ctx.obs("results_kept")
        kept.append((pa, a.diagnostics, np.array(pa.volumes), np.array(pa.fractions), dict(a.diagnostics)))
        ctx.obs("twin_runs_after_modification" if modified else "twin_runs")
    if modified:
        ctx.nontrivial(mix.signature(), tuple(sorted(set(x for x in log if not x.startswith("run")))))
    for x in log:
        if not x.startswith("run"):
            ctx.obs("did_" + x)


def analysis(ctx, rng, i):
    """Arrays returned by analysis functions can be written to without consequences; inputs stay."""
    fe, ref, how = En.make(rng)
    N = ref.N
    p = En.compositions(rng, N, positive=True)
    if p.size == 0:
        return
    index = int(rng.integers(N))
    ctx.describe(how=how, chi=ref.chi, sizes=ref.sizes)
    fns = {"free_energy_density": lambda: fe.free_energy_density(p), "jacobian": lambda: fe.jacobian(p), "jacobian(index)": lambda: fe.jacobian(p, index),
           "hessian": lambda: fe.hessian(p), "hessian(index)": lambda: fe.hessian(p, index), "chemical_potentials": lambda: fe.chemical_potentials(p),
           "exchange": lambda: fe.exchange_chemical_potentials(p, index), "pressure": lambda: fe.pressure(p, index),
           "modes": lambda: fe.num_unstable_modes(p)}
    if hasattr(fe.interaction, "independent_entries"):
        fns["independent_entries"] = lambda: fe.interaction.independent_entries
    p0 = p.copy()
    first = {k: np.array(f()) for k, f in fns.items()}
    for k, f in fns.items():
        r = np.asarray(f())
        if r.ndim and r.flags.writeable and r.size:
            r[...] = -777
        ctx.ok(np.array_equal(p, p0), f"{k} returned a view of its input or modified it")
        for k2, f2 in fns.items():
            ctx.ok(np.array_equal(np.array(f2()), first[k2], equal_nan=True), f"writing to the result of {k} changes {k2}")
    ctx.obs("analysis")
    ctx.nontrivial("analysis", how, N, p.shape)


def alone(ctx, rng, i):
    """What a computation gives does not depend on what else the library was used for before."""
    from lib import alone as Al
    from lib.child import Child

    if "child" not in ctx.store:
        ctx.store["child"] = Child()
    s = Al.spec(rng)
    ctx.describe(mix=s["mix"].describe(), left_to_defaults=s["omit"], seed=s["seed"])
    for _ in range(int(rng.integers(1, 4))):
        Al.history(rng)
    got, ref = Al.compute(s), ctx.store["child"].call("lib.alone", "forked", "compute", s)
    if ref is None:
        raise RuntimeError("the isolated computation ended without a result")
    for k in sorted(ref.keys() | got.keys()):
        a, b = got.get(k, "missing"), ref.get(k, "missing")
        ctx.ok(Al.agree(a, b), f"{k} depend on what the library was used for before", got=a, expected=b)
    ctx.obs("compared_with_isolated")
    ctx.obs("isolated_runs", "phases" in ref)
    ctx.nontrivial("alone", s["mix"].signature(), tuple(s["omit"][:3]))


COMBOS = [("can", True, ("local", "global")), ("gc", False, ("global",)), ("can", False, ()), ("gc", True, ("local",))]


def jit(ctx, rng, i):
    ownership(ctx, rng, i, COMBOS[ctx.shard % len(COMBOS)])
    ctx.obs("jit_cases")


SUITES = [
    Suite("jit", "jit", jit, quick=200, thorough=4000, shards=2, shards_thorough=4, need=["jit_cases"]),
    Suite("ownership", "py", ownership, quick=2000, thorough=30000, shards=5, shards_thorough=8,
          need=["twin_runs_after_modification", "results_kept", "results_modified"] +
          ["did_" + k for k in ("src-chi", "src-sizes", "src-ev", "src-cons", "attr-chi", "attr-sizes", "attr-cons", "set-chi", "set-sizes", "set-ev", "set-cons", "other", "field", "result")]),
    Suite("alone", "py", alone, quick=250, thorough=4000, shards=2, shards_thorough=6, need=["compared_with_isolated", "isolated_runs"]),
    Suite("analysis", "py", analysis, quick=600, thorough=8000, shards=1, shards_thorough=4, need=["analysis"]),
]
