"""C05: convergence reports, step budgets and diagnostics are truthful."""
import numpy as np

from lib import mix as X
from lib import monitor as Mon
from lib import wild as Wild
from lib.blown import blown
from lib.engine import Suite

RULE = ("Random mixtures and states; the four reported residuals are compared with independently computed ones, and the number of "
        "performed steps (counted at the ingredient boundary) with the stopping step predicted by an independent model for random "
        "tolerance, interval and step limit, also with revivals beyond the budget and deaths in the decisive step. Non-trivial: a case in which a residual or a stopping decision was compared; distinct by "
        "mixture structure, decisive residual, and stopping reason.")
ASSUMPTIONS = ["stopping decisions within 1e-5 (relative) of the tolerance are not judged"]
NAMES = ["max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"]


def residuals(r):
    return np.array([r["res_inc"], r["res_w"], r["res_J"], r["res_c"]])


def diag(f):
    return np.array([f.diagnostics[k] for k in NAMES], float)


def safe(mix, rng, scale=1.0):
    """A state far from overflow."""
    return rng.normal(0, mix.std * scale, (mix.S, mix.M))


def diagnostics(ctx, rng, i):
    """Residuals after single steps and short runs, also with dead compartments."""
    mix = X.rand_mix(rng)
    if i % 3 == 0:
        mix = mix.copy(M=max(4, mix.M), thr=0.3, ub=0.3, aJ=0.3, revive=0)
    w = safe(mix, rng)
    n = int(rng.integers(1, 8))
    rec = Mon.Record(mix, 7)
    ctx.describe(mix=mix.describe(), steps=n)
    rec.finder.reinitialize_from_omegas(w)
    st = X.fresh_state(mix, w)
    try:
        ph, steps = rec.run(max_steps=n, interval=int(rng.integers(1, n + 1)), tolerance=1e-300)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    done = len(steps)
    ctx.ok(rec.finder.diagnostics["steps"] == done, "reported number of steps differs from the performed one",
           reported=rec.finder.diagnostics["steps"], performed=done)
    st2, left, ok = Mon.lifecycle(ctx, mix, st, Mon.step_views(steps)[:-1], mix.revive * mix.M, strict=False)
    if not ok:
        return
    v = Mon.step_views(steps)[-1]
    r = X.step(mix, X.State(np.where(v["J"] > mix.thr, v["w"], st2.w), v["J"], st2.mult))
    if not Mon.finite(r):
        return ctx.obs("diverged")
    want, got = residuals(r), diag(rec.finder)
    for k, name in enumerate(NAMES):
        ctx.close(got[k], want[k], f"reported {name}", rtol=1e-6, atol=1e-9 * (1 + np.abs(r["phi"]).max() + np.abs(r["le"]).max()))
    ctx.close(got[0], np.abs(v["phi"].sum(0) - 1)[v["J"] > mix.thr].max(), "reported max_abs_incomp (from compositions)", rtol=1e-9)
    ctx.ok(rec.finder.diagnostics["time"] >= 0, "negative time")
    ctx.obs("diagnostics_compared")
    if (r["mask"] == 0).any():
        ctx.obs("diagnostics_with_dead")
    # which compartment / feature dominates
    ctx.nontrivial(mix.signature(), int(np.argmax(np.abs(r["dw"]))), int(np.argmax(np.abs(r["dJ"]))), bool(r["dJ"][np.argmax(np.abs(r["dJ"]))] > 0))


def lagging(rng, kind):
    """A mixture for which a given residual is the last one to fall."""
    N = int(rng.integers(2, 5))
    M = int(rng.integers(2, 7))
    base = dict(sizes=np.ones(N), ncpf=np.ones(N, int), ens="can", ev=X.rand_simplex(rng, N, 0.1), M=M, ub=0.02, std=0.4, revive=0, thr=0.0)
    if kind == 0:  # incompressibility
        return X.Mix(chi=np.zeros((N, N)), shift=0.02 / N, aJ=0.001, aw=0.2, **base)
    if kind == 1:  # fields
        return X.Mix(chi=X.rand_chi(rng, N, 0.5), shift=3.0, aJ=0.01, aw=0.01, **base)
    if kind == 2:  # volumes
        chi = rng.uniform(3.0, 5.0, (N, N))
        chi = np.triu(chi, 1) + np.triu(chi, 1).T
        base.update(sizes=rng.uniform(0.6, 1.6, N), std=2.0)
        return X.Mix(chi=chi, shift=1.0, aJ=1e-5, aw=0.15, **base)
    cons = [X.Cons("local", np.eye(N)[:1] - np.eye(N)[1:2], np.array([0.0]), ratio=0.003, kappa=0.0)]
    base["ens"], base["ev"] = "gc", np.full(N, 1.0 / N) * rng.uniform(0.8, 1.2, N)
    if rng.random() < 0.5:
        cons.append(X.Cons("global", np.eye(N)[1:2], np.array([0.5 / N]), ratio=0.003, kappa=0.0))
    return X.Mix(chi=np.zeros((N, N)), shift=2.0, aJ=1e-3, aw=0.3, cons=cons, **base)


def lag_tolerance(mix, w, kind, rng):
    """A tolerance for which the given residual decides at some step of the trajectory."""
    st, cand = X.fresh_state(mix, w), []
    for _ in range(200):
        r = X.step(mix, st)
        if not Mon.finite(r) or (r["next"].J <= mix.thr).any():
            break
        st = r["next"]
        res = residuals(r)
        o = np.sort(res)
        if np.argmax(res) == kind and o[-1] > 1.2 * o[-2] and o[-2] > 1e-7:
            cand.append(np.sqrt(o[-1] * o[-2]))
    return float(rng.choice(cand)) if cand else float(10 ** rng.uniform(-4, -1.3))


def predict(mix, st, tol, inner, tracker):
    """Steps performed by a run that checks every `inner` steps at most `tracker` times."""
    step, why, dec = 0, "limit", None
    for _ in range(tracker):
        for _ in range(inner):
            if Mon.borderline(mix, st.J):
                return None
            before = (st.J > mix.thr).sum()
            r = X.step(mix, X.State(st.w, st.J * (st.J > mix.thr), st.mult))
            if not Mon.finite(r):
                return None
            st = r["next"]
            step += 1
        if Mon.borderline(mix, st.J):
            return None
        res = residuals(r)
        if np.any(np.abs(res / tol - 1) < 1e-5):
            return None
        died = (st.J > mix.thr).sum() != before
        below = res < tol
        if below.sum() == 3 and not died:
            dec = int(np.argmin(below))
        if below.all() and died:
            why = "held-by-death"
        if below.all() and not died:
            return step, "converged" if why != "held-by-death" else "converged-after-death", dec
    return step, why, dec


def stopping(ctx, rng, i):
    kind = i % 6
    if kind < 4:
        mix = lagging(rng, kind)
        w = safe(mix, rng)
        tol = lag_tolerance(mix, w, kind, rng)
    else:  # deaths: huge tolerance, so that only deaths prevent stopping
        mix = X.rand_mix(rng, maxM=10)
        mix = mix.copy(M=max(mix.M, 4), revive=0, ub=0.4, aJ=0.5, aw=0.01, thr=float(rng.choice([0.0, 0.3, 0.6])), std=1.5)
        tol = float(rng.choice([1e12, 1e3]))
        w = safe(mix, rng)
    max_steps = int(rng.integers(1, 260)) if kind < 4 else int(rng.integers(1, 30))
    interval = int(rng.choice([1, 1, 2, 3, 7, 20, 1000]))
    if rng.random() < 0.3:
        max_steps = max_steps - 0.5
    tracker = int(np.ceil(max_steps / interval))
    inner = max(1, int(np.ceil(max_steps)) // tracker)
    ctx.describe(mix=mix.describe(), tol=tol, max_steps=max_steps, interval=interval)
    rec = Mon.Record(mix, 3, tolerance=tol, max_steps=max_steps, interval=interval)
    rec.finder.reinitialize_from_omegas(w)
    try:
        ph, steps = rec.run()
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    n, d = len(steps), rec.finder.diagnostics
    ctx.ok(n <= np.ceil(max_steps), "more steps than allowed", performed=n, allowed=max_steps)
    ctx.ok(d["steps"] == n, "reported number of steps differs from the performed one", reported=d["steps"], performed=n)
    res = diag(rec.finder)
    if n <= np.ceil(max_steps) - tracker:  # stopped early
        ctx.ok(np.all(res < tol), "stopped early with a residual above the tolerance", residuals=res, tolerance=tol)
    pr = predict(mix, X.fresh_state(mix, w), tol, inner, tracker)
    if pr is None:
        return ctx.obs("ambiguous")
    want, why, dec = pr
    ctx.obs("stop_" + why)
    if dec is not None:
        ctx.obs(f"decisive_{NAMES[dec]}")
    # checking more often than `interval` is allowed: then the run may stop earlier, but only
    # truly converged; the model checks exactly like the documented splitting
    if n != want:
        fine = predict(mix, X.fresh_state(mix, w), tol, 1, n)
        okay = n < want and fine is not None and fine[0] == n and fine[1].startswith("converged")
        ctx.ok(okay, "stopped at a wrong step", performed=n, expected=want, reason=why, residuals=res, tolerance=tol)
    ctx.nontrivial(mix.signature(), why, dec, tol, interval)


def revived(ctx, rng, i):
    """Runs during which compartments are revived, also beyond the budget, stop only with small residuals."""
    r = Wild.stop_between(ctx, rng, deaths=i % 4 == 0)
    if r is None:
        return
    mix, n, k, tol, v, finder, pick = r
    ctx.ok(finder.diagnostics["steps"] == k <= n, "number of steps", reported=finder.diagnostics["steps"], performed=k, allowed=n)
    ctx.ok(finder.diagnostics["revive_count_left"] == v["left"], "reported revivals left", reported=finder.diagnostics["revive_count_left"], expected=v["left"])
    ctx.close(diag(finder), v["res"], "residuals after revivals", rtol=1e-5, atol=1e-7 * (1 + np.abs(v["phi"]).max()))
    if k < n:
        ctx.ok(np.all(v["res"] < tol), "stopped early with a residual above the tolerance", residuals=v["res"], tolerance=tol, budget=v["left"])
        if v["died"] is not None:
            ctx.ok(not v["died"], "stopped early although a compartment had just died", volumes=v["J"], budget=v["left"])
        ctx.obs("revived_stops")
    else:
        ctx.obs("revived_limits")
    ctx.obs("budget_overdrawn", v["left"] < 0)
    ctx.obs("passed_deaths", pick == -1)
    ctx.nontrivial("revived", mix.signature(), pick, k < n)


def parameters(ctx, rng, i):
    """Residuals of one state do not depend on iteration parameters."""
    mix = X.rand_mix(rng)
    w = safe(mix, rng)
    st = X.fresh_state(mix, w)
    if not Mon.finite(X.step(mix, st)):
        return
    vals = []
    for _ in range(3):
        m = mix.copy(aJ=float(10 ** rng.uniform(-5, -1)), aw=float(10 ** rng.uniform(-4, 0)), ub=float(10 ** rng.uniform(-5, 0)),
                     scaler=float(rng.uniform(0.5, 2)), revive=int(rng.integers(0, 5)))
        f = m.finder(1, tolerance=float(10 ** rng.uniform(-9, 1)), interval=int(rng.integers(1, 9)))
        f.reinitialize_from_omegas(w)
        f.run(max_steps=1)
        vals.append(diag(f))
    ctx.describe(mix=mix.describe(), values=vals)
    for v in vals[1:]:
        ctx.close(v, vals[0], "a residual depends on the iteration parameters", rtol=1e-9, atol=1e-12)
    ctx.obs("parameter_sets", 3)
    ctx.nontrivial("parameters", mix.signature())


def temporary(ctx, rng, i):
    """Arguments of run are temporary; several runs in a row."""
    mix = lagging(rng, i % 4)
    tol0, int0, max0 = float(10 ** rng.uniform(-3, -1)), int(rng.integers(1, 9)), int(rng.integers(10, 120))
    recs = [Mon.Record(mix, 3, tolerance=tol0, interval=int0, max_steps=max0) for _ in range(2)]
    w1, w2 = safe(mix, rng), safe(mix, rng)
    for r in recs:
        r.finder.reinitialize_from_omegas(w1)
    tmp = {}
    if rng.random() < 0.7:
        tmp["tolerance"] = float(10 ** rng.uniform(-8, 2))
    if rng.random() < 0.7:
        tmp["interval"] = int(rng.integers(1, 40))
    if rng.random() < 0.7:
        tmp["max_steps"] = int(rng.integers(1, 60))
    if not tmp:
        tmp["tolerance"] = 1e3
    ctx.describe(mix=mix.describe(), defaults=[tol0, int0, max0], temporary=tmp)
    recs[0].run(**tmp)
    out = []
    for r in recs:
        r.finder.reinitialize_from_omegas(w2)
        ph, steps = r.run()
        out.append((len(steps), diag(r.finder)))
    ctx.ok(out[0][0] == out[1][0], "run arguments stick: number of steps of the next run", after_temporary=out[0][0], untouched=out[1][0])
    ctx.close(out[0][1], out[1][1], "run arguments stick: diagnostics of the next run", rtol=1e-7, atol=1e-12)
    ctx.obs("temporary_runs")
    ctx.nontrivial("temporary", sorted(tmp), i % 4, out[0][0])


def jit_stop(ctx, rng, i):
    """Machine code: NaN states never count as converged; stopping and residuals as in the model."""
    if i % 3 == 0:
        mix = X.rand_mix(rng, block=False, ens="can", cons=False)
        f = mix.finder(1, tolerance=float(rng.choice([1e-3, 1e6, 1e300])), max_steps=12, interval=3)
        w = safe(mix, rng)
        w[rng.integers(mix.S), rng.integers(mix.M)] = -5000.0 / mix.sizes.min()  # overflow
        w[:, rng.integers(mix.M)] = np.nan if i % 2 else -5000.0
        f.reinitialize_from_omegas(w)
        if np.isnan(w).any() or np.all(mix.ev > 0):
            ctx.describe(mix=mix.describe(), w=w)
            ctx.obs("nan_runs")
            f.run()
            ctx.ok(f.diagnostics["steps"] == 12 or np.isfinite(diag(f)).all(), "a run with NaN residuals stopped as converged", steps=f.diagnostics["steps"],
                   residuals=diag(f))
            ctx.nontrivial("nan", mix.signature())
        return
    mix = lagging(rng, i % 3)
    if rng.random() < 0.15:  # long runs which cannot converge use their steps up
        max_steps, interval = int(10 ** rng.uniform(2.5, 4.8)), int(10 ** rng.uniform(1, 4.8))
        ctx.describe(mix=mix.describe(), max_steps=max_steps, interval=interval)
        f = mix.finder(1, tolerance=1e-300, max_steps=max_steps, interval=interval)
        f.reinitialize_from_omegas(safe(mix, rng))
        f.run()
        n = f.diagnostics["steps"]
        ctx.ok(max_steps - np.ceil(max_steps / interval) < n <= max_steps, "a run that did not converge stopped at another step than the last", steps=n, max_steps=max_steps)
        ctx.obs("long_runs")
        return ctx.nontrivial("long", mix.signature(), max_steps, interval)
    if rng.random() < 0.3:  # tiny tolerances
        mix, tol, limit = lagging(rng, int(rng.integers(3))), float(10 ** rng.uniform(-13, -6)), 40000
        ctx.describe(mix=mix.describe(), tol=tol)
        f = mix.finder(1, tolerance=tol, max_steps=limit, interval=int(rng.choice([10, 100])))
        f.reinitialize_from_omegas(safe(mix, rng))
        ph = f.run()
        if f.diagnostics["steps"] < limit:
            ctx.ok(np.all(diag(f) < tol), "stopped early, but a reported residual is not below the tolerance", residuals=diag(f), tolerance=tol)
            inc = np.abs(np.asarray(ph.fractions).sum(1) - 1).max()
            ctx.ok(inc < tol * (1 + 1e-6) + 1e-14, "stopped early, but fractions of a compartment do not add up to one", deviation=inc, tolerance=tol)
            ctx.obs("tiny_tolerances")
            ctx.nontrivial("tiny", mix.signature(), f.diagnostics["steps"])
        return
    tol, max_steps, interval = float(10 ** rng.uniform(-4, -1.3)), int(rng.integers(1, 300)), int(rng.choice([1, 2, 5, 20]))
    tracker = int(np.ceil(max_steps / interval))
    inner = max(1, max_steps // tracker)
    w = safe(mix, rng)
    pr = predict(mix, X.fresh_state(mix, w), tol, inner, tracker)
    if pr is None:
        return ctx.obs("ambiguous")
    f = mix.finder(1, tolerance=tol, max_steps=max_steps, interval=interval)
    f.reinitialize_from_omegas(w)
    f.run()
    n = f.diagnostics["steps"]
    ctx.describe(mix=mix.describe(), tol=tol, max_steps=max_steps, interval=interval)
    if n != pr[0]:
        fine = predict(mix, X.fresh_state(mix, w), tol, 1, n)
        ctx.ok(n < pr[0] and fine is not None and fine[0] == n and fine[1] == "converged", "stopped at a wrong step", got=n, expected=pr)
    ctx.obs("jit_stops")
    ctx.nontrivial("jit", mix.signature(), pr[1:], interval)


SUITES = [
    Suite("stop-jit", "jit", jit_stop, quick=360, thorough=4000, shards=1, shards_thorough=4, need=["nan_runs", "jit_stops", "long_runs", "tiny_tolerances"]),
    Suite("stopping", "py", stopping, quick=1200, thorough=16000, shards=5, shards_thorough=8, hang_is_violation=True,
          need=["stop_converged", "stop_limit", "stop_converged-after-death"] + ["decisive_" + n for n in NAMES]),
    Suite("revived", "py", revived, quick=800, thorough=12000, shards=2, shards_thorough=6, need=["revived_stops", "revived_limits", "budget_overdrawn", "passed_deaths"]),
    Suite("diagnostics", "py", diagnostics, quick=1600, thorough=24000, shards=2, shards_thorough=8, need=["diagnostics_compared", "diagnostics_with_dead"]),
    Suite("parameters", "py", parameters, quick=300, thorough=4000, shards=1, shards_thorough=4, need=["parameter_sets"]),
    Suite("temporary", "py", temporary, quick=160, thorough=2000, shards=1, shards_thorough=4, need=["temporary_runs"]),
]
