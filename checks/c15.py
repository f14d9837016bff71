"""C15: compiled code is memory safe and computes what its Python source says."""
import numpy as np

from lib import mix as X
from lib.child import Child, LibraryError
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Machine code compiled with bounds checking (every array access is checked at run time) runs hostile configurations: one or very many compartments, "
        "one component, empty features, absent components, kill thresholds up to above one, no or negative revival budgets, many constraint rows, odd step "
        "limits, overflowing fields. The same configuration is run by the interpreted source in a helper process and the results are compared. Non-trivial: a "
        "completed comparison; distinct by configuration family, mixture structure, and numbers of revivals.")
ASSUMPTIONS = ["NUMBA_BOUNDSCHECK=1 instruments the same functions that are used without it",
               "configurations whose interpreted result changes by more than 1e-7 when the fields are perturbed by 1e-10 (deaths at the threshold) are not compared",
               "a ZeroDivisionError when no compartment can live (kill threshold of one or more, overflow) is not a crash",
               "finiteness is judged for moderate parameters only"]
KEYS = ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")


def execute(mix, w, seed, runs, eps=0.0):
    """Run a configuration; returns a list of results of the runs, or None if it diverged."""
    f = mix.finder(np.random.default_rng(seed))
    if w is None:
        f.reinitialize_random()
    else:
        f.reinitialize_from_omegas(w)
    if eps:  # nearby fields
        f.reinitialize_from_omegas(f.omegas * (1 + eps) + eps)
    out = []
    for kw in runs:
        try:
            ph = f.run(tolerance=1e-300, **kw)
        except (ValueError, ArithmeticError) as e:
            if not blown(e):
                if not isinstance(e, ZeroDivisionError) or mix.thr < 1 and mix.std < 20:
                    raise  # otherwise no compartment is alive: no meaningful answer exists
            return out, False
        out.append([np.array(ph.volumes), np.array(ph.fractions), f.omegas.copy(), np.array([f.diagnostics[k] for k in KEYS], float)])
    return out, True


FAMILIES = ["plain", "one compartment", "many compartments", "one component", "threshold", "absent", "rows", "limits", "overflow", "lively", "moderate"]


def hostile(rng, ens, block, kinds, fam):
    mix = X.rand_mix(rng, maxM=10, ens=ens, block=block, cons=list(kinds) if kinds else False)
    n = int(rng.integers(1, 25))
    runs = [dict(max_steps=n, interval=n)]
    if fam == "one compartment":
        mix = mix.copy(M=1)
    elif fam == "many compartments":
        mix = mix.copy(M=int(rng.choice([int(rng.integers(100, 400)), 300])))
        if rng.random() < 0.6:  # with many deaths
            mix = mix.copy(thr=0.6, ub=0.3, aJ=0.3, std=1.0, revive=int(rng.choice([0, 0, 1])))
        runs = [dict(max_steps=4, interval=2)]
    elif fam == "one component":
        ncpf = np.ones(1, int)
        mix = mix.copy(chi=mix.chi[:1, :1].copy(), ncpf=ncpf, sizes=mix.sizes[:1].copy(), ev=mix.ev[:1] / (mix.ev[0] if ens == "can" and mix.ev[0] > 0 else 1.0) + (1.0 if mix.ev[0] == 0 else 0),
                       cons=[X.Cons(c.kind, c.Cs[:, :1].copy(), c.Ts, c.ratio, c.kappa) for c in mix.cons])
    elif fam == "threshold":
        mix = mix.copy(thr=float(rng.choice([0.5, 0.9, 0.99, 1.0, 1.5])), revive=int(rng.choice([-1, 0, 1, 16])), ub=0.3, aJ=0.3)
    elif fam == "absent" and ens == "can" and mix.N > 1:
        ev = mix.ev.copy()
        ev[rng.permutation(mix.N)[:int(rng.integers(1, mix.N))]] = 0
        if ev.sum() == 0:
            ev[0] = 1
        mix = mix.copy(ev=ev / ev.sum())
    elif fam == "rows":
        for c in mix.cons:
            A = int(rng.integers(3, 9))
            c.Cs, c.Ts = rng.normal(0, 0.5, (A, mix.S)), rng.normal(0, 0.3, A)
            c.kappa = 0.1
    elif fam == "limits":
        runs = [dict(max_steps=float(rng.choice([1, 2.5, 7, 9.2])), interval=int(rng.choice([1, 3, 100]))) for _ in range(int(rng.integers(1, 4)))]
    elif fam == "overflow":
        mix = mix.copy(std=float(rng.choice([50.0, 300.0])), sizes=mix.sizes * 5)
    elif fam == "lively":
        mix = mix.copy(M=max(3, mix.M), thr=float(rng.choice([0.0, 0.3])), ub=0.3, aJ=0.3, aw=min(mix.aw, 0.02), revive=int(rng.choice([0, 1, 2, 8])), std=1.0)
        runs = [dict(max_steps=int(rng.integers(5, 40)), interval=int(rng.choice([1, 5, 50]))) for _ in range(int(rng.integers(1, 3)))]
    elif fam == "moderate":
        mix = mix.copy(chi=np.clip(mix.chi, -3, 3), sizes=np.clip(mix.sizes, 0.5, 2), aw=0.005, aJ=0.0005, ub=0.001, std=0.5, revive=2,
                       cons=[X.Cons(c.kind, np.clip(c.Cs, -1, 1), c.Ts * 0.3, 0.3, min(c.kappa, 0.5)) for c in mix.cons])
        runs = [dict(max_steps=60, interval=20)]
    return mix, runs


def compare(ctx, rng, i, combo):
    child = ctx.store.get("child")
    if child is None:
        child = ctx.store["child"] = Child()
    fam = FAMILIES[(i // 8) % len(FAMILIES)]
    mix, runs = hostile(rng, *combo, fam)
    seed = int(rng.integers(1 << 30))
    w = rng.normal(0, mix.std, (mix.S, mix.M)) if rng.random() < 0.7 else None
    ctx.describe(mix=mix.describe(), family=fam, runs=runs, seed=seed)
    got, ok = execute(mix, w, seed, runs)
    ctx.obs("compiled_runs", len(got))
    complete = ok
    if not ok:
        ctx.ok(fam != "moderate", "compiled code diverges for moderate parameters")
        if mix.thr >= 1 or mix.std > 20:
            return ctx.obs("no_living_compartment")
    for V, F, W, D in got:
        ctx.ok(V.shape == (mix.M,) and F.shape == (mix.M, mix.N) and W.shape == (mix.S, mix.M), "shapes of results")
    if fam == "moderate":
        for V, F, W, D in got:
            ctx.ok(np.isfinite(V).all() and np.isfinite(F).all() and np.isfinite(W).all() and np.isfinite(D).all(), "results are not finite for moderate parameters")
        ctx.obs("moderate")
    if mix.M > 100 and i % 3:
        return
    try:
        want, ok = child.call("checks.c15", "execute", mix, w, seed, runs)
    except LibraryError as e:
        if fam == "overflow" or mix.thr >= 1 or not complete:
            return ctx.obs("diverged")
        ctx.fail("the interpreted source fails where the compiled code gives a result", error=str(e))
    if not ok:
        return ctx.obs("diverged")
    pert, ok = child.call("checks.c15", "execute", mix, w, seed, runs, 1e-10)
    if not ok:
        return ctx.obs("diverged")
    names = ("volumes", "compositions", "fields", "diagnostics")
    for g, x, p in zip(got + [None] * (len(want) - len(got)), want, pert):
        if not all(np.isfinite(y).all() for y in x) or max(np.abs(y).max() for y in x) > 1e8:
            return ctx.obs("diverged")
        if not all(np.allclose(a, b, rtol=1e-7, atol=1e-7) for a, b in zip(x, p)):
            return ctx.obs("sensitive")
        ctx.ok(g is not None, "compiled code gives up where its source gives a result")
        for a, b, name in zip(g, x, names):
            ctx.close(a, b, f"{name} of compiled and interpreted code", rtol=1e-6, atol=1e-7)
        ctx.obs("compared")
    if not complete:
        return
    ctx.obs("compared_" + fam.replace(" ", "_"))
    revived = mix.revive * mix.M - want[-1][3][5]
    ctx.obs("compared_with_revivals", revived > 0)
    ctx.nontrivial(fam, mix.signature(), revived, len(runs))


COMBOS = [("can", False, ("local", "global")), ("gc", True, ("local",)), ("can", True, ()), ("gc", False, ("global",)), ("can", True, ("global", "global", "local")),
          ("gc", False, ()), ("can", False, ("local",)), ("gc", True, ("local", "global", "local")),
          ("can", True, ("local",)), ("gc", False, ("local",)), ("gc", True, ()), ("can", False, ()), ("gc", True, ("global",)), ("can", False, ("global",)),
          ("can", True, ("local", "local")), ("gc", False, ("global", "local"))]


def hostile_case(ctx, rng, i):
    compare(ctx, rng, i, COMBOS[ctx.shard % len(COMBOS)])


def close(ctx):
    if "child" in ctx.store:
        ctx.store["child"].close()


SUITES = [
    Suite("hostile", "bc", hostile_case, quick=1600, thorough=9600, shards=8, shards_thorough=16, hang_is_violation=True, final=close,
          need=["compiled_runs", "compared", "moderate", "compared_with_revivals"] +
          ["compared_" + f.replace(" ", "_") for f in FAMILIES if f not in ("overflow",)]),
]
SOFT = {"quick": 250, "thorough": 1800}
HARD = {"quick": 600, "thorough": 3600}
