"""C10: runs are reproducible and can be split, resumed and watched."""
import contextlib
import io
import random

import numpy as np

from lib import mix as X
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Three finders with equally seeded generators, but different global random states: a repetition must give identical results; a third one performs "
        "the same number of steps in several runs with random checking intervals, with and without progress display, and must reach the same fields, "
        "phases, residuals, revival budget and random state. Non-trivial: a comparison after at least two runs or revivals; distinct by mixture structure, "
        "partition of the steps, and whether compartments were revived.")
ASSUMPTIONS = ["histories in which an intermediate result contains exactly duplicated compartments (replaced dead ones) are compared up to that result only"]
KEYS = ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")


def noise(rng):
    """Disturb global random states (they must not matter)."""
    s = int(rng.integers(1 << 30))
    np.random.seed(s)
    random.seed(s)


def watch(f, **kw):
    with contextlib.redirect_stderr(io.StringIO()):
        return f.run(**kw)


def duplicates(ph):
    return len(np.unique(ph.fractions, axis=0)) < len(ph.fractions)


def rng_state(g):
    return repr(g.bit_generator.state)


def compare(ctx, a, b, pa, pb, what, exact=False, phases=True):
    pairs = [(a.omegas, b.omegas, "fields"), ([a.diagnostics[k] for k in KEYS], [b.diagnostics[k] for k in KEYS], "diagnostics")]
    if phases:
        pairs += [(pa.volumes, pb.volumes, "volumes"), (pa.fractions, pb.fractions, "compositions")]
    for x, y, name in pairs:
        x, y = np.asarray(x, float), np.asarray(y, float)
        same = np.array_equal(x, y, equal_nan=True) if exact else x.shape == y.shape and np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True)
        ctx.ok(same, f"{what}: {name} differ", got=y, expected=x)


def lively(rng, mix):
    """Often make compartments die."""
    if rng.random() < 0.5:
        return mix.copy(M=max(3, mix.M), thr=float(rng.choice([0.0, 0.3, 0.6])), ub=0.3, aJ=0.3, aw=min(mix.aw, 0.02), revive=int(rng.choice([0, 1, 2, 8])))
    return mix


def case(ctx, rng, i, mix=None):
    given = mix is not None
    mix = mix if given else lively(rng, X.rand_mix(rng, maxM=10))
    seed = int(rng.integers(1 << 30))
    plan = []
    ctx.describe(mix=mix.describe(), seed=seed, plan=plan)
    gens = [np.random.default_rng(seed) for _ in range(3)]
    fs = []
    for g in gens:
        noise(rng)
        fs.append(mix.finder(g))
    a, b, c = fs
    ctx.ok(np.array_equal(a.omegas, b.omegas) and np.array_equal(a.omegas, c.omegas), "initial fields depend on more than the generator")
    budget, comparable = a_budget(mix), True
    for stage in range(int(rng.integers(1, 4))):
        if stage and rng.random() < 0.3:
            for f in fs:
                noise(rng)
                f.reinitialize_random()
            plan.append("reinit")
        many = rng.random() < (0.2 if given else 0.02)  # many checks within a run
        n = int(rng.integers(60, 400)) if many else int(rng.integers(1, 60))
        try:
            pa = a.run(max_steps=n, interval=n, tolerance=1e-300)
            noise(rng)
            pb = b.run(max_steps=n, interval=n, tolerance=1e-300)
        except (ValueError, ArithmeticError) as e:
            if not blown(e):
                raise
            return ctx.obs("diverged")
        compare(ctx, a, b, pa, pb, "repetition", exact=True)
        ctx.ok(rng_state(gens[0]) == rng_state(gens[1]), "repetition: random states differ")
        ctx.obs("repeated")
        done, parts = 0, []
        while done < n and comparable:
            m = int(rng.integers(1, n - done + 1))
            interval = int(rng.integers(1, m + 5))
            if many:
                m, interval = (n - done if rng.random() < 0.6 else m), int(rng.integers(1, 4))
            noise(rng)
            progress = bool(rng.random() < 0.3)
            pc = watch(c, max_steps=m, interval=interval, tolerance=1e-300, progress=progress)
            s = int(c.diagnostics["steps"])
            ctx.ok(1 <= s <= m, "number of steps of a part", steps=s, max_steps=m)
            done += s
            parts.append((m, interval, progress))
            if progress:
                ctx.obs("watched")
            if done < n and duplicates(pc):
                comparable = False
                ctx.obs("intermediate_replacements")
        plan.append(parts)
        if not comparable:
            if mix.revive > 0:
                return
            # the drawn numbers do not influence the evolution without revivals
            while done < n:
                pc = c.run(max_steps=n - done, interval=n - done, tolerance=1e-300)
                done += int(c.diagnostics["steps"])
            if np.isfinite(a.omegas).all():
                compare(ctx, a, c, pa, pc, "split runs", phases=False)
                ctx.obs("split_without_draws")
            return
        compare(ctx, a, c, pa, pc, "split runs")
        ctx.obs("many_checks", many)
        ctx.ok(rng_state(gens[0]) == rng_state(gens[2]), "split runs: random states differ", plan=plan)
        revived = a.diagnostics["revive_count_left"] < budget
        if len(parts) > 1 or revived:
            ctx.obs("split")
            ctx.nontrivial(mix.signature(), len(parts), min(n, 20), revived)
            if revived and len(parts) > 1:
                ctx.obs("split_with_revivals")
            if mix.cons:
                ctx.obs("split_with_constraints")
            if duplicates(pa):
                ctx.obs("split_final_replacement")


def a_budget(mix):
    return mix.revive * mix.M


def converging(ctx, rng, i):
    """Runs that stop at convergence: interval and history change when they stop, but a stopped run can be continued."""
    from lib import solve as So

    mix = So.solvable(rng, ens=str(rng.choice(["can", "gc"])), maxS=3)
    seed = int(rng.integers(1 << 30))
    ctx.describe(mix=mix.describe(), seed=seed)
    a, b = mix.finder(seed), mix.finder(seed)
    try:
        pa = a.run(max_steps=1500, interval=int(rng.integers(20, 400)), tolerance=1e-3)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    n = int(a.diagnostics["steps"])
    pb = b.run(max_steps=n, interval=n, tolerance=1e-300)
    compare(ctx, a, b, pa, pb, "stopping early")
    ctx.obs("stopped_early" if n < 1100 else "stopped_late")
    ctx.nontrivial(mix.signature(), n)


def shortcut(ctx, rng, i):
    """The convenience function with equally seeded generators."""
    N = int(rng.integers(2, 4))
    chi, phi, sizes = X.rand_chi(rng, N, 2.0), X.rand_simplex(rng, N, 0.1), X.rand_sizes(rng, N)
    seed = int(rng.integers(1 << 30))
    kw = dict(sizes=sizes, max_steps=int(rng.integers(20, 150)), num_part=int(rng.integers(2, 9)), progress=False, interval=50, random_std=1.0)
    out = []
    ctx.describe(chi=chi, phi=phi, sizes=sizes, seed=seed)
    try:
        for _ in range(2):
            noise(rng)
            out.append(flory.find_coexisting_phases(N, chi, phi, rng=np.random.default_rng(seed), **kw))
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    p, q = (o[0] if isinstance(o, tuple) else o for o in out)
    ctx.ok(np.array_equal(p.volumes, q.volumes) and np.array_equal(p.fractions, q.fractions), "the convenience function is not reproducible")
    for n in (N, int(rng.integers(1, 60))):
        r1, r2 = (flory.common.phases.get_uniform_random_composition(n, np.random.default_rng(seed)) for _ in range(2))
        ctx.ok(np.array_equal(r1, r2), "random compositions are not reproducible", components=n)
        fa, fb = (flory.FloryHuggins.from_random_normal(n, 1.0, 2.0, rng=np.random.default_rng(seed)) for _ in range(2))
        ctx.ok(np.array_equal(fa.interaction.chis, fb.interaction.chis), "random interactions are not reproducible", components=n)
        for fe in (fa, fb):
            fe.interaction.set_random_chis(-1.0, 0.5, vanishing_diagonal=bool(n % 2), rng=np.random.default_rng(seed + 1))
        ctx.ok(np.array_equal(fa.interaction.chis, fb.interaction.chis), "newly drawn interactions are not reproducible", components=n)
    ctx.obs("shortcut")
    ctx.nontrivial("shortcut", N, kw["num_part"])


COMBOS = [("can", False, ("local", "global")), ("gc", True, ("global",))]


def jit(ctx, rng, i):
    ens, block, cons = COMBOS[ctx.shard % len(COMBOS)]
    mix = lively(rng, X.rand_mix(rng, maxM=10, ens=ens, block=block, cons=list(cons)))
    case(ctx, rng, i, mix)
    ctx.obs("jit_cases")


SUITES = [
    Suite("jit", "jit", jit, quick=800, thorough=8000, shards=2, shards_thorough=2, need=["jit_cases"]),
    Suite("split", "py", case, quick=2500, thorough=40000, shards=5, shards_thorough=8,
          need=["repeated", "split", "split_with_revivals", "split_with_constraints", "watched", "split_without_draws"]),
    Suite("converging", "py", converging, quick=80, thorough=800, shards=2, shards_thorough=6, need=["stopped_early"]),
    Suite("shortcut", "py", shortcut, quick=150, thorough=2000, shards=1, shards_thorough=2, need=["shortcut"]),
]
