"""C02: the canonical ensemble conserves every component."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib import solve as Sv
from lib.blown import blown
from lib.engine import Suite

RULE = ("Canonical runs of random mixtures (grouped or not, constraints, absent components, deaths and revivals); in each recorded step the "
        "volume-weighted mean of the compositions is compared with the prescribed means, then the means of the returned, clustered, sorted "
        "and normalised phases. Non-trivial: a run whose means were compared; distinct by mixture structure and steps, deaths.")
ASSUMPTIONS = ["steps in which Boltzmann factors overflow are not judged"]


def postprocess(ctx, rng, ph, what):
    """Clustering, sorting and normalising keep the means."""
    ref = np.asarray(ph.volumes) @ np.asarray(ph.fractions) / np.sum(ph.volumes)
    for name, q in (("get_clusters", ph.get_clusters(float(10 ** rng.uniform(-3, 0)))), ("sort", ph.sort()), ("normalize", ph.normalize()),
                    ("chain", ph.get_clusters().sort().normalize())):
        m = np.asarray(q.volumes) @ np.asarray(q.fractions) / np.sum(q.volumes)
        ctx.close(m, ref, f"{what}: {name} changes the means", rtol=1e-9, atol=1e-13)
        ctx.close(q.mean_fractions, ref, f"{what}: mean_fractions after {name}", rtol=1e-9, atol=1e-13)
    ctx.close(ph.mean_fractions, ref, f"{what}: mean_fractions", rtol=1e-9, atol=1e-13)
    ctx.obs("postprocessed")


def trace(ctx, rng, i):
    mix = X.rand_mix(rng, ens="can")
    if i % 2:  # many deaths and revivals
        mix = mix.copy(M=max(3, mix.M), ub=float(rng.choice([0.05, 0.3])), aJ=float(rng.choice([0.05, 0.5])), thr=float(rng.choice([0.0, 0.2, 0.5])),
                       revive=int(rng.choice([0, 1, 3])), std=1.0)
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    rec.finder.reinitialize_from_omegas(w)
    st, left, died = X.fresh_state(mix, w), mix.revive * mix.M, 0
    for run in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 25))
        ctx.describe(mix=mix.describe(), steps=n)
        try:
            ph, steps = rec.run(max_steps=n, interval=int(rng.choice([1, 4, n])), tolerance=1e-300)
        except (ValueError, ArithmeticError) as e:
            if not blown(e):
                raise
            return ctx.obs("diverged")
        views = Mon.step_views(steps)
        for k, v in enumerate(views):
            p = np.exp(-mix.sizes[:, None] * v["w"][mix.feat])
            if not np.isfinite(v["phi"]).all() or not p.max() < 1e200 or (p * v["J"]).sum(1).min() < 1e-200 or (v["J"] < 0).any():
                return ctx.obs("diverged")
            means = v["phi"] @ v["J"] / v["J"].sum()
            ctx.close(means, mix.ev, f"means of the compositions in step {k}", rtol=1e-9, atol=1e-13, dead=int((v["J"] == 0).sum()))
            ctx.ok(np.all(v["phi"] >= 0), "negative fraction")
            ctx.obs("steps_with_dead" if (v["J"] == 0).any() else "steps_all_alive")
        # the returned phases: amounts of the last compositions in the volumes after the step
        v = views[-1]
        V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
        st, left, ok = Mon.lifecycle(ctx, mix, st, views, left, strict=False)
        if not ok or Mon.borderline(mix, st.J):
            return
        live = st.J > mix.thr
        if not live.any():
            return
        ctx.close(V @ F / V.sum(), v["phi"][:, live] @ st.J[live] / st.J[live].sum(), "means of the returned phases", rtol=1e-7, atol=1e-10)
        calm = v["J"].min() > mix.thr + 3 * mix.ub and abs(v["J"].mean() - 1) < 1e-9
        if calm:  # nothing died and nothing was revived: the prescribed means up to the last volume change
            dev = np.abs(V @ F / V.sum() - mix.ev)
            ctx.ok(np.all(dev <= (2 * mix.ub + 1e-9) * v["phi"].mean(1)), "means of the returned phases differ by more than the last volume change",
                   deviation=dev)
            ctx.obs("calm_outputs")
        died += int((~live).sum())
        postprocess(ctx, rng, ph, "run")
        ctx.obs("outputs")
    ctx.nontrivial(mix.signature(), died, mix.thr)


def converged(ctx, rng, i):
    kinds = [(), ("local",), ("global",)][rng.choice(3, p=[0.7, 0.15, 0.15])]
    block = bool(rng.random() < 0.4)
    mix = Sv.constrained(rng, "can", block, kinds) if kinds else Sv.solvable(rng, "can", block)
    tol = float(10 ** rng.uniform(-6, -3))
    ctx.describe(mix=mix.describe(), tol=tol)
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), tol, max_steps=4000, interval=50)
    if not conv:
        return ctx.obs("not_converged")
    m = np.asarray(ph.volumes) @ np.asarray(ph.fractions) / np.sum(ph.volumes)
    bound = 3 * min(mix.aJ * tol, mix.ub) + 1e-11
    ctx.ok(np.abs(m - mix.ev).max() < bound, "means of a converged result", deviation=np.abs(m - mix.ev).max(), bound=bound)
    postprocess(ctx, rng, ph, "converged")
    ctx.obs("converged")
    ctx.nontrivial("converged", mix.signature(), Sv.phases_seen(np.asarray(ph.fractions)))


def jit(ctx, rng, i):
    """Machine code, from outside: single steps; the volumes returned by one weight the next."""
    block = ctx.shard % 2 == 1
    mix = X.rand_mix(rng, ens="can", block=block, cons=False).copy(thr=0.0, ub=float(10 ** rng.uniform(-5, -2)))
    f = mix.finder(int(rng.integers(1 << 30)))
    f.reinitialize_from_omegas(rng.normal(0, mix.std, (mix.S, mix.M)))
    prev = np.ones(mix.M)
    n = int(rng.integers(2, 40))
    ctx.describe(mix=mix.describe(), steps=n)
    for k in range(n):
        ph = f.run(max_steps=1, interval=1, tolerance=1e-300)
        V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
        if not (np.isfinite(V).all() and np.isfinite(F).all()) or F.max() > 1e6:
            return ctx.obs("diverged")
        ctx.close(prev @ F / prev.sum(), mix.ev, f"means after {k + 1} single steps", rtol=1e-8, atol=1e-12)
        ctx.obs("jit_steps")
        if np.unique(F, axis=0).shape[0] < mix.M and mix.M > 1:  # a dead compartment was replaced
            break
        if mix.M > 1 and V.min() < 3 * mix.ub:
            break
        prev = V
    # longer run
    m = int(rng.integers(10, 400))
    ph = f.run(max_steps=m, interval=m, tolerance=1e-300)
    V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
    if np.isfinite(F).all() and np.isfinite(V).all() and f.diagnostics["revive_count_left"] == mix.revive * mix.M:
        dev = np.abs(V @ F / V.sum() - mix.ev)
        ctx.ok(np.all(dev <= ((4 + mix.M) * mix.ub + 1e-9) * F.sum(0)), "means of the returned phases", deviation=dev)
        ctx.obs("jit_outputs")
    ctx.nontrivial("jit", mix.signature(), k)


SUITES = [
    Suite("jit", "jit", jit, quick=400, thorough=8000, shards=2, shards_thorough=4, need=["jit_steps", "jit_outputs"]),
    Suite("trace", "py", trace, quick=1500, thorough=24000, shards=5, shards_thorough=8, need=["steps_with_dead", "steps_all_alive", "outputs", "calm_outputs", "postprocessed"]),
    Suite("converged", "py", converged, quick=120, thorough=3000, shards=3, shards_thorough=8, need=["converged"]),
]
