"""Violent evolutions in which many compartments die at once, stopped between two residuals."""
import numpy as np

from . import mix as X
from . import monitor as Mon
from .blown import blown


def residuals(r):
    return np.array([r["res_inc"], r["res_w"], r["res_J"], r["res_c"]])


def stop_between(ctx, rng, cons=None, prefer=None, deaths=False):
    """A run with a tolerance that all but one residual satisfy at some step, preferably with an overdrawn budget.

    With `deaths`, a tolerance that all residuals of a step satisfy in which a compartment dies.
    Returns None, or (mixture, step limit, performed steps, tolerance, last step with its true residuals and remaining budget, finder,
    index of the residual above the tolerance).
    """
    cons = (True if rng.random() < 0.7 else None) if cons is None else cons
    mix = X.rand_mix(rng, maxM=12, cons=cons, tail=0.0)
    mix = mix.copy(M=max(mix.M, 4), revive=int(rng.choice([1, 1, 2])), ub=0.4, aJ=float(rng.choice([0.1, 0.5, 2.0])), aw=float(rng.choice([0.01, 0.05])),
                   thr=float(rng.choice([0.0, 0.3, 0.6])), std=1.0)
    for c in mix.cons:
        c.ratio, c.kappa = 0.01, 0.0
    seed, n = int(rng.integers(1 << 30)), int(rng.integers(5, 40))
    ctx.describe(mix=mix.describe(), seed=seed, n=n)
    try:
        probe = Mon.Record(mix, seed)
        views = Mon.step_views(probe.run(max_steps=n, interval=n, tolerance=1e-300)[1])
        st, left, cand = X.fresh_state(mix, views[0]["w"]), mix.revive * mix.M, []
        for v in views:  # true residuals of all steps
            mult = st.mult
            st, left, ok = Mon.lifecycle(ctx, mix, st, [v], left, strict=False)
            if not ok:
                break
            died = None if Mon.borderline(mix, st.J) else bool((st.J > mix.thr).sum() != (v["J"] > mix.thr).sum())
            v.update(res=residuals(X.step(mix, X.State(v["w"], v["J"], mult))), left=left, died=died)
            o = np.sort(v["res"])
            if deaths:
                if died:
                    cand.append((int(left < 0), float(3 * o[-1] + 1e-3), -1))
            elif o[-1] > 1.05 * o[-2] > 1e-6 * (1 + np.abs(v["phi"]).max()):
                cand.append((int(left < 0) + 2 * (int(np.argmax(v["res"])) == prefer), float(np.sqrt(o[-1] * o[-2])), int(np.argmax(v["res"]))))
        if not cand:
            return ctx.obs("ambiguous")
        best = [c for c in cand if c[0] == max(c[0] for c in cand)]
        _, tol, which = best[rng.integers(len(best))]
        ctx.describe(tol=tol)
        rec = Mon.Record(mix, seed)
        k = len(rec.run(max_steps=n, interval=1, tolerance=tol)[1])
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return ctx.obs("diverged")
    v = views[min(k, n) - 1]
    if "res" not in v or np.any(np.abs(v["res"] / tol - 1) < 1e-4) or np.any(np.abs(v["res"] - tol) < 1e-7 * (1 + np.abs(v["phi"]).max())):
        return ctx.obs("ambiguous")
    return mix, n, k, tol, v, rec.finder, which
