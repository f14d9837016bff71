"""C04: converged results satisfy the imposed linear constraints."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib import solve as Sv
from lib import wild as Wild
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Mixtures with one to three compatible constraint objects (local, global; one or two rows; targets; grouped components; random ratio and "
        "elasticity; given to the constructor or set later) are solved, and the constraints recomputed from the phases of every run that claims "
        "convergence; in traced runs the reported residue is compared with the largest recomputed violation; runs with many deaths and revivals and a decisive residue are included. Non-trivial: a converged "
        "constrained run or a compared residue; distinct by mixture structure.")
ASSUMPTIONS = ["bound: 2 tolerances (1 follows from the definition of the residue, plus the last change of the volumes for global ones)"]
KINDS = [("local",), ("global",), ("local", "global"), ("global", "local"), ("local", "local"), ("global", "global"), ("local", "global", "global")]


def residues(mix, F, V):
    """Violations of all constraints by phases with volumes V and fractions F (P, N)."""
    ph = X.to_features(mix, F.T)
    out = []
    for c in mix.cons:
        r = c.Cs @ ph - c.Ts[:, None]
        out.append(np.abs(r).max() if c.kind == "local" else np.abs(r @ V / V.sum()).max())
    return out


def judge(ctx, mix, ph, tol, how):
    F, V = np.asarray(ph.fractions), np.asarray(ph.volumes)
    slack = max(np.abs(c.Cs).sum(1).max() for c in mix.cons) * 3 * min(mix.ub, mix.aJ * tol)
    for c, r in zip(mix.cons, residues(mix, F, V)):
        ctx.ok(r < 2 * tol + slack + 1e-11, f"converged, but a {c.kind} constraint is violated", violation=r, tolerance=tol, how=how)
        ctx.peak("violation/tol", r / tol)
        ctx.obs("converged_" + c.kind)
        if len(c.Ts) > 1:
            ctx.obs("converged_rows")
        if np.abs(c.Ts).max() > 1e-3:
            ctx.obs("converged_target")
    ctx.obs("converged")
    if len(mix.cons) > 1:
        ctx.obs("converged_several")
    if mix.block:
        ctx.obs("converged_block")
    n = Sv.phases_seen(F)
    if n > 1:
        ctx.obs("converged_multiphase")
    ctx.nontrivial(mix.signature(), n, how, round(tol, 9))


def finder_with(rng, mix, seed):
    """Constraints given to the constructor or set later, in all accepted forms."""
    cons = mix.constraints()
    if rng.random() < 0.3:  # the same constraints through setters
        for c, o in zip(mix.cons, cons):
            o.Cs, o.Ts = np.ones_like(c.Cs), np.zeros_like(c.Ts)
            o.Cs, o.Ts = c.Cs.copy(), c.Ts.copy()
    how = int(rng.integers(5))
    if how == 0:
        return mix.finder(seed, {"constraints": tuple(cons)}), "constructor tuple"
    if how == 1 and len(cons) == 1:
        return mix.finder(seed, {"constraints": cons[0]}), "constructor single"
    if how == 2:
        f = mix.finder(seed, {"constraints": None})
        f.set_constraints(cons[0] if len(cons) == 1 else cons)
        return f, "set later"
    if how == 3:
        f = mix.finder(seed, {"constraints": None}, constraint_acceptance_ratio=7.0)
        f.set_constraints(cons, kwargs_individual=[dict(constraint_acceptance_ratio=c.ratio, constraint_elasticity=c.kappa) for c in mix.cons])
        return f, "set with individual options"
    return mix.finder(seed, {"constraints": cons + [flory.NoConstraint(mix.S)] if how == 4 else cons}), "constructor list"


def solve(ctx, rng, i):
    kinds = KINDS[rng.choice(7, p=[0.3, 0.2, 0.12, 0.1, 0.1, 0.1, 0.08])]
    ens = str(rng.choice(["can", "gc"]))
    rows = 2 if len(kinds) == 1 and rng.random() < 0.3 else 1
    mix = Sv.constrained(rng, ens, bool(rng.random() < 0.3), kinds, rows)
    if rng.random() < 0.3:  # constraints that lag behind
        for c in mix.cons:
            c.ratio = 0.05
    tol = float(10 ** rng.uniform(-5, -2.5))
    f, how = finder_with(rng, mix, int(rng.integers(1 << 30)))
    ctx.describe(mix=mix.describe(), tol=tol, how=how)
    f, ph, conv = Sv.run(mix, None, tol, max_steps=4000, interval=int(rng.choice([10, 50])), finder=f)
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, mix, ph, tol, how)


def residue(ctx, rng, i):
    """The reported residue at arbitrary states."""
    mix = X.rand_mix(rng, cons=True)
    if i % 2:
        mix = mix.copy(M=max(3, mix.M), ub=0.3, aJ=float(rng.choice([0.05, 0.5])), thr=float(rng.choice([0.0, 0.2, 0.5])), revive=int(rng.choice([0, 1])), std=1.0)
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    if i % 3 == 0:  # parameters changed after creation, then set again
        for c, o in zip(mix.cons, rec.parts["constraints"]):
            c.Ts = c.Ts + rng.normal(0, 0.3, c.Ts.shape)
            o.Ts = c.Ts.copy()
            if rng.random() < 0.5:
                c.Cs = c.Cs + rng.normal(0, 0.3, c.Cs.shape)
                o.Cs = c.Cs.copy()
        rec.finder.set_constraints(rec.parts["constraints"])
        ctx.obs("changed_parameters")
    rec.finder.reinitialize_from_omegas(rng.normal(0, mix.std, (mix.S, mix.M)))
    n = int(rng.integers(1, 20))
    ctx.describe(mix=mix.describe(), steps=n)
    try:
        ph, steps = rec.run(max_steps=n, interval=int(rng.choice([1, n])), tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    v = Mon.step_views(steps)[-1]
    if not (np.isfinite(v["phi"]).all() and np.isfinite(v["J"]).all()) or v["phi"].max() > 1e8:
        return ctx.obs("diverged")
    live = v["J"] > mix.thr
    if not live.any():
        return
    want = max(residues(mix, v["phi"][:, live].T, v["J"][live]))
    ctx.close(rec.finder.diagnostics["max_constraint_residue"], want, "reported constraint residue", rtol=1e-9, atol=1e-12 * (1 + v["phi"].max()))
    ctx.obs("residues_with_dead" if (~live).any() else "residues")
    ctx.nontrivial("residue", mix.signature())


def wild(ctx, rng, i):
    """Runs in which compartments die and are revived, also beyond the budget, and constraints lag behind."""
    r = Wild.stop_between(ctx, rng, cons=True, prefer=3)
    if r is None:
        return
    mix, n, k, tol, v, finder, which = r
    live = v["J"] > mix.thr
    want = max(residues(mix, v["phi"][:, live].T, v["J"][live]))
    if k < n:
        ctx.ok(want < tol, "converged, but a constraint is violated", violation=want, tolerance=tol, budget=v["left"])
        ctx.obs("wild_converged")
    ctx.obs("wild_decisive", which == 3)
    ctx.obs("wild_overdrawn", which == 3 and v["left"] < 0)
    ctx.nontrivial("wild", mix.signature(), which, k < n)


COMBOS = [("can", False, ("local",)), ("gc", False, ("local", "global")), ("can", True, ("global",)), ("gc", True, ("local",)),
          ("can", False, ("local", "local")), ("gc", False, ("global",)), ("can", True, ("local", "global")), ("gc", True, ("global", "local"))]


def jit(ctx, rng, i):
    ens, block, kinds = COMBOS[ctx.shard % len(COMBOS)]
    mix = Sv.constrained(rng, ens, block, kinds, 1 if rng.random() < 0.7 or len(kinds) > 1 else 2)
    tol = float(10 ** rng.uniform(-6, -2.5))
    ctx.describe(mix=mix.describe(), tol=tol)
    f = mix.finder(int(rng.integers(1 << 30)))
    f, ph, conv = Sv.run(mix, None, tol, max_steps=20000, interval=int(rng.choice([10, 100])), finder=f)
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, mix, ph, tol, "jit")
    ctx.obs("converged_jit")


SUITES = [
    Suite("jit", "jit", jit, quick=240, thorough=8000, shards=3, shards_thorough=8, need=["converged_jit"]),
    Suite("solve", "py", solve, quick=220, thorough=6000, shards=5, shards_thorough=8,
          need=["converged", "converged_local", "converged_global", "converged_several", "converged_block", "converged_multiphase", "converged_rows", "converged_target"]),
    Suite("wild", "py", wild, quick=800, thorough=12000, shards=2, shards_thorough=4, need=["wild_converged", "wild_decisive", "wild_overdrawn"]),
    Suite("residue", "py", residue, quick=1500, thorough=24000, shards=2, shards_thorough=8, need=["residues", "residues_with_dead"]),
]
