"""C14: compartments die, are revived and are reported by the rules."""
import numpy as np
from scipy import stats

from lib import mix as X
from lib import monitor as Mon
from lib.blown import blown
from lib.engine import Suite

RULE = ("Random mixtures with large volume steps so that compartments die often, random kill thresholds, revival budgets and scalers; "
        "each step recorded at the ingredient boundary is checked against the rules, then the returned phases against the last state. "
        "Non-trivial: a case with at least one death; distinct by mixture structure, threshold, budget and numbers of deaths/revivals.")
ASSUMPTIONS = ["steps in which a volume is within 1e-8 of the threshold are not judged"]


def deadly(rng, maxM=14):
    mix = X.rand_mix(rng, maxM=maxM)
    if rng.random() < 0.08:
        mix = mix.copy(M=int(rng.integers(20, 130)))
    return mix.copy(M=max(mix.M, 2), ub=float(rng.choice([0.03, 0.1, 0.3])), aJ=float(rng.choice([0.02, 0.1, 0.5])), aw=float(rng.choice([0.003, 0.02])),
                    thr=float(rng.choice([0.0, 0.0, 0.1, 0.3, 0.6])), revive=int(rng.choice([-1, 0, 1, 2, 5, 17, 100])),
                    scaler=float(rng.choice([0.0, 0.3, 1.0, 1.5])), std=float(rng.choice([0.5, 1.0])))


def check_output(ctx, mix, st, phi, ph):
    """Returned phases against the volumes st.J and compositions phi of the last step."""
    V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
    live = st.J > mix.thr
    if not live.any():
        return
    ctx.ok(V.shape == (mix.M,) and F.shape == (mix.M, mix.N), "shape of the returned phases", got=[V.shape, F.shape])
    ctx.ok(np.all(np.isfinite(V)) and np.all(V > 0), "a returned compartment has no positive finite volume", volumes=V)
    ctx.ok(np.all(np.isfinite(F)) and np.all(F >= 0), "a returned composition is not finite and non-negative")
    ctx.close(V.sum(), st.J[live].sum(), "total volume of the result", rtol=1e-7)
    ctx.close(V @ F, st.J[live] @ phi.T[live], "amounts of components in the result", rtol=1e-6, atol=1e-9)
    # living compartments keep place and composition, and may only have given away volume
    ctx.close(F[live], phi.T[live], "composition of a living compartment in the result", rtol=1e-6, atol=1e-9)
    ctx.ok(np.all(V[live] <= st.J[live] * (1 + 1e-7) + 1e-9), "a living compartment gained volume in the result")
    big = st.J[live].max()
    if live.all():
        ctx.close(V, st.J, "volumes of living compartments in the result", rtol=1e-7, atol=1e-9)
    for m in np.where(~live)[0]:
        dist = np.abs(F[m] - phi.T[live]).max(1) / (1e-9 + np.abs(phi.T[live]).max(1))
        ctx.ok(dist.min() < 1e-6, "a dead compartment was not replaced by a copy of a living one", got=F[m])
        ctx.obs("replaced")
    ctx.obs("outputs_checked")


def trace(ctx, rng, i):
    mix = deadly(rng)
    ctx.describe(mix=mix.describe())
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    rec.finder.reinitialize_from_omegas(w)
    st, budget = X.fresh_state(mix, w), mix.revive * mix.M
    total = 0
    before = dict(ctx.counters)
    for r in range(int(rng.integers(1, 5))):  # several runs in a row share the budget
        if r and rng.random() < 0.3:  # ... unless an ingredient is replaced, which fills it up again
            name = str(rng.choice(["interaction", "entropy", "ensemble"]))
            reset = bool(rng.random() < 0.8)
            kw = {} if reset and rng.random() < 0.5 else {"if_reset_revive": reset}
            getattr(rec.finder, "set_" + name)(rec.parts[name], **kw)
            if reset:
                budget = mix.revive * mix.M
                ctx.obs("budget_refilled_with_dead" if (st.J <= mix.thr).any() else "budget_refilled")
        n = int(rng.integers(1, 50))
        try:
            ph, steps = rec.run(max_steps=n, interval=int(rng.choice([1, 5, n])), tolerance=1e-300)
        except (ValueError, ArithmeticError) as e:
            if not blown(e):
                raise
            return ctx.obs("diverged")
        views = Mon.step_views(steps)
        st, budget, ok = Mon.lifecycle(ctx, mix, st, views, budget, collect=ctx.store.setdefault("u", []))
        if not ok:
            return
        total += len(views)
        ctx.ok(rec.finder.diagnostics["revive_count_left"] == budget, "reported remaining revival budget",
               reported=rec.finder.diagnostics["revive_count_left"], expected=budget)
        if Mon.borderline(mix, st.J):
            return
        check_output(ctx, mix, st, views[-1]["phi"], ph)
    c = ctx.counters
    deaths = [c.get(k, 0) - before.get(k, 0) for k in ("revivals", "dead_steps")]
    if any(deaths):
        ctx.nontrivial(mix.signature(), mix.thr, mix.revive, deaths)


def brink(ctx, rng, i):
    """The smallest compartment ends up just above or just below the threshold."""
    mix = deadly(rng).copy(aJ=50.0, aw=0.003, thr=float(rng.choice([0.0, 0.0, 0.1, 0.4])))
    if rng.random() < 0.5:
        mix = mix.copy(revive=0)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    eps = float(rng.choice([1, 1, -1]) * 10 ** rng.uniform(-6.5, -2.5))
    lo, hi = 1e-3, 4.0
    after = lambda ub: X.step(mix.copy(ub=ub), X.fresh_state(mix, w))["next"].J.min() - mix.thr - eps
    if not (after(lo) > 0 > after(hi)):
        return ctx.obs("no_brink")
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        lo, hi = (mid, hi) if after(mid) > 0 else (lo, mid)
    mix = mix.copy(ub=lo)
    n = int(rng.choice([1, 1, 1, 2]))
    ctx.describe(mix=mix.describe(), w=w, distance=eps, steps=n)
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    rec.finder.reinitialize_from_omegas(w)
    try:
        ph, steps = rec.run(max_steps=n, interval=n, tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    views = Mon.step_views(steps)
    st, budget, ok = Mon.lifecycle(ctx, mix, X.fresh_state(mix, w), views, mix.revive * mix.M)
    if not ok or Mon.borderline(mix, st.J):
        return
    ctx.ok(rec.finder.diagnostics["revive_count_left"] == budget, "reported remaining revival budget", reported=rec.finder.diagnostics["revive_count_left"], expected=budget)
    check_output(ctx, mix, st, views[-1]["phi"], ph)
    ctx.obs("just_alive" if eps > 0 else "just_dead")
    ctx.nontrivial("brink", mix.signature(), mix.thr, eps > 0, n)


def uniform(ctx):
    """Over all revivals of the shard: relative positions are independent and uniform in [-1, 1], alike for all features and compartments."""
    got = [g for g in ctx.store.get("u", [])]
    every = np.concatenate([u.ravel() for u, _ in got]) if got else np.zeros(0)
    groups = {"all": every, "first feature": [u[0] for u, _ in got], "last feature": [u[-1] for u, _ in got if len(u) > 1],
              "first compartment": [u[:, 0] for u, d in got], "last of several compartments": [u[:, -1] for u, d in got if len(d) > 1],
              "compartment number zero": [u[:, 0] for u, d in got if d[0] == 0], "first of several compartments": [u[:, 0] for u, d in got if len(d) > 1]}
    for name, g in groups.items():
        g = np.concatenate(g) if len(g) and name != "all" else np.asarray(g, float)
        if len(g) < 200:
            continue
        p = stats.kstest(g, stats.uniform(-1, 2).cdf).pvalue
        ctx.ok(p > 1e-9, "fields of revived compartments are not uniformly distributed in the range", group=name, p=p, n=len(g), mean=g.mean(), std=g.std())
    ctx.obs("revived_fields", len(every))
    pairs = {"features": [(u[:-1].ravel(), u[1:].ravel()) for u, _ in got if len(u) > 1],
             "compartments": [(u[:, :-1].ravel(), u[:, 1:].ravel()) for u, d in got if len(d) > 1],
             "successive revivals": [(u[:1, :1].ravel(), v[:1, :1].ravel()) for (u, _), (v, _) in zip(got[:-1], got[1:])]}
    for name, q in pairs.items():
        if not q:
            continue
        x, y = (np.concatenate(z) for z in zip(*q))
        if len(x) < 200:
            continue
        for f in (lambda v: v, np.abs):
            p = 2 * stats.norm.sf(abs(np.corrcoef(f(x), f(y))[0, 1]) * np.sqrt(len(x)))
            ctx.ok(p > 1e-9, "fields of revived compartments are correlated", between=name, p=p, n=len(x))
            ctx.obs("correlations")


def isolation(ctx, rng, i):
    """A dead compartment has no influence: its field can be anything."""
    mix = deadly(rng).copy(revive=0, thr=0.2)
    rec = Mon.Record(mix, 5)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    rec.finder.reinitialize_from_omegas(w)
    ctx.describe(mix=mix.describe())
    try:
        ph, steps = rec.run(max_steps=60, interval=60, tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    dead_seen = False
    for v in Mon.step_views(steps):
        dead = v["J"] <= mix.thr
        if not np.isfinite(v["J"]).all() or not np.isfinite(v["w"]).all():
            return ctx.obs("diverged")
        if v["phi"] is None:
            continue
        ctx.ok(np.all(v["phi"][:, dead] == 0), "a dead compartment contains material", phi=v["phi"][:, dead])
        ctx.ok(np.all(v["J"][dead] == 0), "a dead compartment has volume", J=v["J"])
        if dead.any() and not dead.all():
            m2 = mix.copy(M=int((~dead).sum()))
            phi = X.fractions(m2, v["w"][:, ~dead], v["J"][~dead])
            if np.isfinite(phi).all() and phi.max() < 1e6:
                ctx.close(v["phi"][:, ~dead], phi, "a dead compartment influences the living ones", rtol=1e-7, atol=1e-10)
                dead_seen = True
                ctx.obs("isolated_steps")
    if dead_seen:
        ctx.nontrivial("isolation", mix.signature())


def jit_output(ctx, rng, i):
    """Machine code: properties of the returned phases that need no trace."""
    mix = deadly(rng)
    mix = mix.copy(block=False, ncpf=np.ones(mix.N, int), chi=X.rand_chi(rng, mix.N), cons=[], ens="can", ev=X.rand_simplex(rng, mix.N))
    f = mix.finder(int(rng.integers(1 << 30)))
    n = int(rng.integers(1, 200))
    ctx.describe(mix=mix.describe(), steps=n)
    left0 = mix.revive * mix.M
    ph = f.run(max_steps=n, interval=int(rng.choice([1, 7, n])), tolerance=1e-300)
    if not np.isfinite(f.omegas).all():
        return ctx.obs("diverged")
    V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
    ctx.ok(np.all(np.isfinite(V)) and np.all(V > 0), "a returned compartment has no positive finite volume", volumes=V)
    ctx.ok(np.all(np.isfinite(F)) and np.all(F >= 0), "a returned composition is not finite and non-negative")
    left = f.diagnostics["revive_count_left"]
    ctx.ok(left <= left0 and (left > -mix.M or left == left0), "reported remaining revival budget out of range", left=left, initial=left0)
    ctx.obs("jit_outputs")
    ctx.nontrivial("jit", mix.signature(), mix.thr, left0 - left)


SUITES = [
    Suite("output-jit", "jit", jit_output, quick=600, thorough=10000, shards=1, shards_thorough=4, need=["jit_outputs"], hang_is_violation=True),
    Suite("trace", "py", trace, quick=1500, thorough=20000, shards=5, shards_thorough=8, final=uniform, hang_is_violation=True,
          need=["revivals", "dead_steps", "replaced", "outputs_checked", "revived_fields"]),
    Suite("brink", "py", brink, quick=500, thorough=8000, shards=1, shards_thorough=4, need=["just_alive", "just_dead"]),
    Suite("isolation", "py", isolation, quick=250, thorough=4000, shards=2, shards_thorough=8, need=["isolated_steps"]),
]
