"""C20: every iteration step is the documented self-consistent step."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory
from lib.spy import Tape

RULE = ("Random mixtures (1-6 components or 1-4 features with 0-3 components each, 1-96 compartments, both ensembles, 0-3 "
        "constraint objects, random iteration parameters) in random states; each recorded step is compared with an independent "
        "implementation of the documented step. A case is non-trivial if at least one step with more than one compartment was "
        "compared; distinct by mixture structure, limiter activity and seed.")
ASSUMPTIONS = ["states with overflowing Boltzmann factors are left out", "the reference step is written from the documentation and class docs"]


def advance(mix, st, n, seed=0):
    """Advance the reference by n steps together with a slightly perturbed copy.

    Returns (last step, accuracy that can be expected of the result, limiter activity) or
    None if the trajectory overflows or a compartment dies on the way."""
    g = np.random.default_rng(seed)
    twin = X.State(st.w * (1 + 1e-12 * g.uniform(-1, 1, st.w.shape)), st.J * (1 + 1e-13 * g.uniform(-1, 1, st.J.shape)), st.mult)
    lim = 0
    for _ in range(n):
        r, rt = X.step(mix, st), X.step(mix, twin)
        if not Mon.finite(r, 1e5) or not Mon.finite(rt, 1e6):
            return None
        st, twin = r["next"], rt["next"]
        lim += r["fac"] < 1
        if (st.J <= mix.thr).any() or Mon.borderline(mix, st.J):
            return None
    dev = max(np.abs(st.w - twin.w).max(), np.abs(st.J - twin.J).max(), np.abs(r["phi"] - rt["phi"]).max())
    tol = 1e-9 + 300 * dev
    return (r, tol, lim) if tol < 1e-4 else None


def compare(ctx, f, mix, ref, nsteps, ph):
    r, tol, lim = ref
    st = r["next"]
    ctx.close(f.omegas, st.w, "fields after the step", rtol=tol, atol=tol)
    ctx.close(ph.volumes, st.J, "volumes after the step", rtol=tol, atol=tol)
    ctx.close(ph.fractions.T, r["phi"], "compositions of the step", rtol=tol, atol=tol)
    ctx.obs("steps_compared", nsteps)
    ctx.obs("limited_steps", lim)
    ctx.obs("unlimited_steps", nsteps - lim)
    if mix.cons:
        ctx.obs("constraint_steps", nsteps)
    if mix.M > 1:
        ctx.nontrivial(mix.signature(), lim > 0, ctx.case)
    return st


def run_steps(ctx, mix, rng, chunks):
    ctx.describe(mix=mix.describe(), chunks=chunks)
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    f = mix.finder(int(rng.integers(1 << 30)))
    f.reinitialize_from_omegas(w)
    st = X.fresh_state(mix, w)
    for n in chunks:
        ref = advance(mix, st, n)
        if ref is None:
            ctx.obs("skipped")
            return
        ph = f.run(max_steps=n, interval=n, tolerance=1e-300)
        st = compare(ctx, f, mix, ref, n, ph)


def individual(ctx, mix, rng):
    """Give every constraint options of its own."""
    if len(mix.cons) > 1 and rng.random() < 0.5:
        for c in mix.cons:
            c.ratio, c.kappa = float(rng.choice([0.3, 1.0, 2.0])), float(rng.choice([0.0, 0.5, 1.0, 3.0]))
        ctx.obs("individual_options")
    return mix


def steps(ctx, rng, i):
    run_steps(ctx, individual(ctx, X.rand_mix(rng), rng), rng, [1, 1, 1] if i % 3 else [int(rng.integers(2, 30)), 1, 3])


def tame(rng, **kw):
    """A mixture for longer trajectories: moderate parameters."""
    m = X.rand_mix(rng, wild=False, **kw)
    return m.copy(aJ=float(10 ** rng.uniform(-4, -2.5)), aw=float(10 ** rng.uniform(-3, -1.7)), ub=float(10 ** rng.uniform(-4, -2.5)), thr=0.0,
                  std=float(rng.choice([0.3, 1.0])))


JIT = [dict(block=False, ens="can", cons=False), dict(block=True, ens="gc", cons=["local", "global"]),
       dict(block=True, ens="can", cons=["global"]), dict(block=False, ens="gc", cons=["local", "local"])]


def jit_steps(ctx, rng, i):
    mix = tame(rng, **JIT[i % 4]) if i % 8 > 3 else X.rand_mix(rng, **JIT[i % 4])
    run_steps(ctx, individual(ctx, mix, rng), rng, [1, 1, int(rng.integers(2, 60))])


def long_steps(ctx, rng, i):
    run_steps(ctx, tame(rng), rng, [int(rng.integers(40, 120))])


def traced(ctx, rng, i):
    """Traces with deaths and revivals: the steps around them are documented steps, too."""
    mix = X.rand_mix(rng, maxM=12)
    mix = mix.copy(ub=float(rng.choice([0.05, 0.2])), aJ=float(rng.choice([0.02, 0.1])), aw=0.01, thr=float(rng.choice([0.0, 0.3])),
                   M=max(mix.M, 3), revive=int(rng.choice([0, 1, 3])), std=1.0)
    ctx.describe(mix=mix.describe())
    trace_case(ctx, mix, rng, 40)


def trace_case(ctx, mix, rng, n):
    rec = Mon.Record(mix, int(rng.integers(1 << 30)))
    w = rng.normal(0, mix.std, (mix.S, mix.M))
    rec.finder.reinitialize_from_omegas(w)
    try:
        ph, steps = rec.run(max_steps=n, interval=int(rng.integers(1, n + 1)), tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):  # the interpreted source cannot count NaN volumes
            raise
        ctx.obs("diverged")
        return
    budget = mix.revive * mix.M
    dead0 = ctx.counters.get("revivals", 0) + ctx.counters.get("dead_steps", 0)
    st, left, ok = Mon.lifecycle(ctx, mix, X.fresh_state(mix, w), Mon.step_views(steps), budget)
    if ctx.counters.get("revivals", 0) + ctx.counters.get("dead_steps", 0) > dead0:
        ctx.nontrivial(mix.signature(), "deaths", ctx.case)


def custom(ctx, rng, i):
    """User-defined ingredients that follow the protocol."""
    mix = X.rand_mix(rng, block=False)
    mix = mix.copy(thr=0.0)
    S, M = mix.S, mix.M
    A = rng.normal(0, 1, (S, S))
    A = A + A.T
    b = rng.normal(0, 1, S)
    coef_arr = rng.uniform(0.5, 3, M) if i % 2 else float(rng.uniform(0.5, 3))

    class Inter:
        num_feat = S

        def potential(self, phis_feat):
            return A @ phis_feat + b[:, None] * phis_feat**2

        def volume_derivative(self, potential, phis_feat):
            return 0.5 * np.einsum("im,ij,jm->m", phis_feat, A, phis_feat) + (b[:, None] * phis_feat**3).sum(0) / 3

        def incomp_coef(self, phis_feat):
            return coef_arr

    class InterSrc(flory.InteractionBase):
        def compiled(self, **kw):
            return Inter()

    mix.chi = np.zeros((S, S))
    parts = {"interaction": InterSrc(mix.N)}
    w = rng.normal(0, 0.5, (S, M))
    f = mix.finder(1, parts)
    f.reinitialize_from_omegas(w)
    st = X.fresh_state(mix, w)
    inter = Inter()

    def energy(phf):
        return inter.potential(phf), inter.volume_derivative(None, phf)

    ctx.describe(mix=mix.describe(), A=A, b=b, coef=coef_arr)
    for k in range(3):
        r = X.step(mix, st, coef=coef_arr, energy=energy)
        if not Mon.finite(r, 1e5) or (r["next"].J <= mix.thr).any():
            ctx.obs("skipped")
            return
        ph = f.run(max_steps=1)
        ctx.close(f.omegas, r["next"].w, "fields after a step with a user-defined interaction", rtol=1e-8, atol=1e-8)
        ctx.close(ph.volumes, r["next"].J, "volumes after a step with a user-defined interaction", rtol=1e-8, atol=1e-8)
        ctx.close(ph.fractions.T, r["phi"], "compositions of a step with a user-defined interaction", rtol=1e-8)
        st = r["next"]
        ctx.obs("custom_steps")
    ctx.nontrivial("custom", mix.signature(), np.ndim(coef_arr))


def fixed_point(ctx, rng, i):
    """A state that satisfies all equations stays."""
    from lib.solve import solvable

    mix = solvable(rng, ens=["can", "gc"][i % 2], block=bool(i % 3 == 0)).copy(M=4)
    f = mix.finder(int(rng.integers(1 << 30)), tolerance=1e-9, max_steps=12000, interval=100)
    ctx.describe(mix=mix.describe())
    f.run()
    if f.diagnostics["steps"] > 11900:
        ctx.obs("unconverged")
        return
    w = f.omegas.copy()
    ph1 = f.run(max_steps=1)
    ph2 = f.run(max_steps=100, interval=100, tolerance=1e-300)
    ctx.ok(np.abs(f.omegas - w).max() < 2e-6, "fields drift away from a converged state", drift=np.abs(f.omegas - w).max())
    if f.diagnostics["revive_count_left"] == mix.revive * mix.M:
        ctx.ok(np.abs(ph2.volumes - ph1.volumes).max() < 2e-6, "volumes drift away from a converged state",
               drift=np.abs(ph2.volumes - ph1.volumes).max())
    ctx.obs("fixed_points")
    ctx.nontrivial("fixed", mix.signature(), i)


SUITES = [
    Suite("steps-jit", "jit", jit_steps, quick=400, thorough=6000, shards=4, need=["steps_compared"]),
    Suite("steps", "py", steps, quick=2400, thorough=40000, shards=4, shards_thorough=8, need=["limited_steps", "unlimited_steps", "constraint_steps", "individual_options"]),
    Suite("long", "py", long_steps, quick=200, thorough=3000, shards=2, shards_thorough=8),
    Suite("traced", "py", traced, quick=400, thorough=8000, shards=2, shards_thorough=8, need=["revivals", "dead_steps"]),
    Suite("custom", "py", custom, quick=300, thorough=4000, shards=1, shards_thorough=4, need=["custom_steps"]),
    Suite("fixed-point", "py", fixed_point, quick=32, thorough=600, shards=4, shards_thorough=8, need=["fixed_points"]),
]
