"""C01: a converged run returns phases that really coexist."""
import numpy as np

from lib import mix as X
from lib import solve as Sv
from lib import wild as Wild
from lib.engine import Suite

RULE = ("Random mixtures (all ensembles, grouped or not, 0-2 constraint objects) are solved with random iteration parameters and tolerances, "
        "also after histories of replaced ingredients, from states with one lagging small compartment, and in violent evolutions with many deaths; for every run that claims convergence the chemical potentials recomputed from the "
        "returned compositions are compared between compartments. Non-trivial: a run that claimed convergence; distinct by mixture "
        "structure, tolerance and number of phases.")
ASSUMPTIONS = ["bound for the chemical potentials: 4 tolerances (exact consequence of the definition of the residuals), more with constraints",
               "components with zero mean fraction are not judged (their potential is -infinity)"]
KINDS = [(), ("local",), ("global",), ("local", "global"), ("global", "local"), ("local", "local")]


def vary(rng, mix):
    """Make different residuals lag behind."""
    k = rng.integers(6)
    if k == 0:
        return mix.copy(aJ=mix.aJ * 0.03)
    if k == 1:
        return mix.copy(aw=mix.aw * 0.2, aJ=mix.aJ * 3)
    if k == 2:
        return mix.copy(shift=0.05)
    if k == 3:
        return mix.copy(shift=4.0, ub=0.001)
    if k == 4:
        return mix.copy(thr=float(rng.choice([0.02, 0.1])), revive=int(rng.integers(0, 3)))
    return mix


def build(rng, ens, block, kinds):
    return Sv.constrained(rng, ens, block, kinds) if kinds else Sv.solvable(rng, ens, block)


def judge(ctx, mix, ph, tol, f):
    V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
    ctx.ok(np.isfinite(F).all() and np.isfinite(V).all(), "converged result is not finite")
    inc = np.abs(F.sum(1) - 1).max()
    ctx.ok(inc < 2 * tol, "converged, but fractions of a compartment do not add up to one", deviation=inc, tolerance=tol)
    err = Sv.mu_error(mix, F)
    ctx.ok(err < (6 if mix.cons else 4.1) * tol + 1e-9, "converged, but chemical potentials differ between compartments", difference=err, tolerance=tol,
           diagnostics=f.diagnostics)
    n = Sv.phases_seen(F)
    ctx.obs("converged")
    ctx.obs(f"phases_{min(n, 4)}")
    ctx.peak("mu_error/tol", err / tol)
    ctx.peak("incomp/tol", inc / tol)
    if mix.cons:
        ctx.obs("converged_constrained")
    if mix.ens == "gc":
        ctx.obs("converged_gc")
    if mix.block:
        ctx.obs("converged_block")
    if n > 1:
        ctx.obs("converged_multiphase")
    ctx.nontrivial(mix.signature(), n, round(tol, 9), f.diagnostics["steps"])


def pick(rng):
    return str(rng.choice(["can", "can", "gc"])), bool(rng.random() < 0.35), KINDS[rng.choice(6, p=[0.45, 0.2, 0.15, 0.1, 0.05, 0.05])]


def solve(ctx, rng, i):
    mix = vary(rng, build(rng, *pick(rng)))
    tol = float(10 ** rng.uniform(-5.5, -2.3))
    ctx.describe(mix=mix.describe(), tol=tol)
    interval = int(rng.choice([1, 10, 50, 200]))
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), tol, max_steps=5000, interval=interval)
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, mix, ph, tol, f)


def history(ctx, rng, i):
    """Reuse: replace ingredients or continue with another tolerance, then judge again."""
    ens, block, kinds = pick(rng)
    mix = build(rng, ens, block, kinds)
    seed = int(rng.integers(1 << 30))
    f, ph, conv = Sv.run(mix, seed, 1e-2, max_steps=int(rng.choice([50, 1500])), interval=50)
    log = []
    for _ in range(int(rng.integers(1, 4))):
        if ph is None or not np.isfinite(f.omegas).all():
            return ctx.obs("diverged")
        what = str(rng.choice(["interaction", "entropy", "ensemble", "constraints", "none", "ens-kind"]))
        log.append(what)
        if what == "interaction":
            chi = mix.chi + rng.normal(0, 0.3, mix.chi.shape)
            mix = mix.copy(chi=0.5 * (chi + chi.T))
            f.set_interaction(mix.interaction())
        elif what == "entropy":
            mix = mix.copy(sizes=rng.choice([1.0, 1.3, 2.0], mix.N))
            f.set_entropy(mix.entropy())
        elif what == "ensemble" and not mix.cons:
            mix = mix.copy(ev=X.rand_simplex(rng, mix.N, 0.05) if mix.ens == "can" else mix.ev * rng.uniform(0.8, 1.2, mix.N))
            f.set_ensemble(mix.ensemble())
        elif what == "ens-kind" and not mix.cons:
            mix = mix.copy(ens="can" if mix.ens == "gc" else "gc", ev=X.rand_simplex(rng, mix.N, 0.05))
            f.set_ensemble(mix.ensemble())
        elif what == "constraints" and mix.cons:
            mix = mix.copy(cons=mix.cons[:-1])
            f.set_constraints(mix.constraints() or None)
        if rng.random() < 0.4:
            f.reinitialize_random()
            log.append("reinit")
        tol = float(10 ** rng.uniform(-5, -2.3))
        ctx.describe(mix=mix.describe(), tol=tol, history=log)
        f, ph, conv = Sv.run(mix, None, tol, max_steps=3000, interval=50, finder=f)
        if conv:
            judge(ctx, mix, ph, tol, f)
            ctx.obs("converged_after_history")
        else:
            ctx.obs("not_converged")


def transfer(ctx, rng, i):
    """Grand-canonical coexistence: activities taken from a converged canonical run."""
    mix = build(rng, "can", bool(rng.random() < 0.3), ())
    mix = mix.copy(chi=mix.chi + 2.0 * (1 - np.eye(mix.S)))
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), 1e-6, max_steps=6000, interval=100)
    if not conv:
        return ctx.obs("not_converged")
    F, w = np.asarray(ph.fractions), f.omegas.copy()
    a = np.median(F.T * np.exp(mix.sizes[:, None] * w[mix.feat]), axis=1)
    gc = mix.copy(ens="gc", ev=a, revive=0)
    tol = float(10 ** rng.uniform(-4.5, -3))
    g = gc.finder(5)
    g.reinitialize_from_omegas(w)
    ctx.describe(mix=gc.describe(), tol=tol)
    g, ph2, conv = Sv.run(gc, None, tol, max_steps=3000, interval=10, finder=g)
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, gc, ph2, tol, g)
    if Sv.phases_seen(np.asarray(ph2.fractions)) > 1:
        ctx.obs("gc_multiphase")


def shrink(ctx, rng, i):
    """Grand-canonical metastable compartments that lose volume slowly: not converged before they are gone."""
    mix = Sv.solvable(rng, "gc", False)
    mix.chi = mix.chi * (1 - np.eye(mix.S)) * 0.2 + float(rng.uniform(2.5, 4.5)) * (1 - np.eye(mix.S))
    mix = mix.copy(sizes=np.ones(mix.N), ev=float(rng.uniform(0.5, 1.5)) * rng.uniform(0.8, 1.25, mix.N), M=int(rng.integers(2, 9)), revive=0, std=3.0, aw=0.05,
                   aJ=float(10 ** rng.uniform(-3.5, -2.5)), ub=float(rng.choice([0.01, 1.0])), thr=float(rng.choice([0.0, 0.0, 1e-3])))
    tol = float(10 ** rng.uniform(-4, -2))
    ctx.describe(mix=mix.describe(), tol=tol)
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), tol, max_steps=40000, interval=int(rng.choice([5, 20])))
    if not conv:
        return ctx.obs("not_converged")
    dead = bool((f.omegas == 0).all(0).any())
    judge(ctx, mix, ph, tol, f)
    ctx.obs("converged_after_shrinking", dead)


def wild(ctx, rng, i):
    """Violent evolutions (small, dying and revived compartments) with a tolerance between two residuals."""
    r = Wild.stop_between(ctx, rng, cons=False if rng.random() < 0.6 else True, prefer=int(rng.integers(3)))
    if r is None:
        return
    mix, n, k, tol, v, finder, which = r
    ctx.obs(f"wild_decisive_{which}")
    if k >= n:
        return ctx.obs("wild_limits")
    live = v["J"] > mix.thr
    F = v["phi"][:, live].T
    inc, err = np.abs(F.sum(1) - 1).max(), Sv.mu_error(mix, F)
    # exactly: mu = const + local energy + field error, up to the freedom of local constraints
    bound = (4 if not any(c.kind == "local" for c in mix.cons) else 4 * np.sqrt(mix.N) + 4) * tol * (1 + 1e-6) + 1e-7
    ctx.ok(inc < tol * (1 + 1e-6) + 1e-9, "converged, but fractions of a compartment do not add up to one", deviation=inc, tolerance=tol)
    ctx.ok(err < bound, "converged, but chemical potentials differ between compartments", difference=err, tolerance=tol, diagnostics=finder.diagnostics)
    ctx.peak("wild mu_error/bound", err / bound)
    ctx.obs("wild_converged")
    ctx.obs("wild_small_volumes", v["J"][live].min() < 0.3)
    ctx.nontrivial("wild", mix.signature(), which)


def stragglers(mix, w, m):
    """Steps of the model at which only compartment m, which has become small, is not converged: (tolerance, step, kind)."""
    st, cand = X.fresh_state(mix, w), []
    rest = np.arange(mix.M) != m
    for t in range(200):
        r = X.step(mix, st)
        st = r["next"]
        if not np.isfinite(r["le"]).all() or st.J[m] <= 0.01 or np.abs(r["dw"]).max() < 1e-7:
            break
        if r["J"][m] > 0.2:
            continue
        own = np.array([abs(r["inc"][m]), np.abs(r["dw"][:, m]).max(), abs(r["dJ"][m])])
        oth = max(np.abs(r["inc"][rest]).max(), np.abs(r["dw"][:, rest]).max(), np.abs(r["dJ"][rest]).max(), 1e-8)
        for k in range(3):
            lo = max(oth, np.delete(own, k).max())
            if k == 0 and own[0] > 1.5 * lo:
                cand.append((np.sqrt(own[0] * lo), t, k))
            elif k and own[k] > 7 * lo:
                cand.append((own[k] / 6, t, k))
        if own.max() > 14 * oth:
            cand.append((own.max() / 12, t, 3))
    return cand


def straggler(ctx, rng, i):
    """All compartments are in equilibrium but a small, shrinking one: the run must wait for it, too."""
    block = bool(rng.random() < 0.3)
    S = int(rng.integers(2, 5))
    ncpf = rng.integers(1, 3, S) if block else np.ones(S, int)
    N, M = int(ncpf.sum()), int(rng.integers(2, 12))
    chi, sizes, shift = X.rand_chi(rng, S, 0.5), X.rand_sizes(rng, N), float(rng.choice([0.05, 0.3, 1.0, 3.0]))
    if rng.random() < 0.5:  # incompressibility lags behind
        chi, sizes, shift = np.zeros((S, S)), rng.uniform(2.0, 5.0, N), float(rng.uniform(0.02, 0.1))
    phi, feat = X.rand_simplex(rng, N, 0.05), np.repeat(np.arange(S), ncpf)
    w0 = chi @ np.bincount(feat, phi, S) + rng.normal()
    m, cand = int(rng.integers(M)), []
    for attempt in range(12):
        aw = float(10 ** rng.uniform(-1.5, -0.5))
        mix = X.Mix(chi=chi, sizes=sizes, ncpf=ncpf, ens="gc", ev=phi * np.exp(sizes * w0[feat]), M=M, block=block, aw=aw, aJ=float(aw * 10 ** rng.uniform(-1, 2)), ub=1.0,
                    shift=shift, revive=0, std=1.0)
        w = np.repeat(w0[:, None], M, axis=1)
        w[:, m] += rng.normal(0, rng.choice([0.1, 0.3, 1.0]), S)
        cand = stragglers(mix, w, m)
        if cand:
            break
    ctx.describe(mix=mix.describe(), w=w)
    if not cand:
        return ctx.obs("no_straggler")
    kinds = sorted({c[2] for c in cand})
    kind = kinds[rng.integers(len(kinds))]
    cand = [c for c in cand if c[2] == kind]
    tol, t, k = cand[rng.integers(len(cand))]
    tol = float(tol)
    ctx.describe(tol=tol, step=t, kind=k)
    f = mix.finder(1)
    f.reinitialize_from_omegas(w)
    f, ph, conv = Sv.run(mix, None, tol, max_steps=4000, interval=1, finder=f)
    if not conv:
        return ctx.obs("not_converged")
    F = np.asarray(ph.fractions)
    inc = np.abs(F.sum(1) - 1).max()
    ctx.ok(inc < tol * (1 + 1e-6) + 1e-10, "converged, but fractions of a compartment do not add up to one", deviation=inc, tolerance=tol)
    judge(ctx, mix, ph, tol, f)
    ctx.obs("stragglers_" + ("incompressibility", "fields", "volumes", "any")[k])


COMBOS = [("can", False, ()), ("gc", True, ("local",)), ("can", True, ("global",)), ("gc", False, ()), ("can", False, ("local",)),
          ("can", True, ()), ("gc", False, ("local", "global")), ("can", False, ("local", "global"))]


def jit(ctx, rng, i):
    """Machine code; each worker compiles one combination of ingredients."""
    mix = vary(rng, build(rng, *COMBOS[ctx.shard % len(COMBOS)]))
    tol = float(10 ** rng.uniform(-6, -2.3))
    ctx.describe(mix=mix.describe(), tol=tol, combo=COMBOS[ctx.shard % len(COMBOS)])
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), tol, max_steps=20000, interval=int(rng.choice([10, 100, 1000])))
    if not conv:
        return ctx.obs("not_converged")
    judge(ctx, mix, ph, tol, f)
    ctx.obs("converged_jit")


SUITES = [
    Suite("solve-jit", "jit", jit, quick=300, thorough=8000, shards=3, shards_thorough=8, need=["converged_jit"]),
    Suite("shrink", "jit", shrink, quick=150, thorough=4000, shards=1, shards_thorough=4, need=["converged_after_shrinking"]),
    Suite("solve", "py", solve, quick=340, thorough=6000, shards=5, shards_thorough=8,
          need=["converged", "converged_constrained", "converged_gc", "converged_block", "converged_multiphase"]),
    Suite("history", "py", history, quick=100, thorough=2500, shards=2, shards_thorough=8, need=["converged_after_history"]),
    Suite("wild", "py", wild, quick=800, thorough=12000, shards=2, shards_thorough=4, need=["wild_converged", "wild_small_volumes"]),
    Suite("straggler", "py", straggler, quick=600, thorough=12000, shards=2, shards_thorough=4, need=["stragglers_incompressibility", "stragglers_any"]),
    Suite("transfer", "py", transfer, quick=60, thorough=1500, shards=1, shards_thorough=4, need=["gc_multiphase"]),
]
