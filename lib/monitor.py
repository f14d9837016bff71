"""Online checker of recorded iteration traces against the documented state machine."""
import numpy as np

from . import mix as X
from .spy import Tape, spied_parts


class CountingRNG:
    """A numpy Generator seen through a counter (interpreted lane only).

    Stops runaway loops by a logical bound on the number of draws."""

    def __init__(self, seed, limit=200_000):
        self.gen = np.random.default_rng(seed)
        self.calls = {}
        self.limit = limit

    def __getattr__(self, name):
        val = getattr(self.gen, name)
        if not callable(val):
            return val

        def call(*a, **k):
            self.calls[name] = self.calls.get(name, 0) + 1
            if sum(self.calls.values()) > self.limit:
                raise RunawayError(f"more than {self.limit} random draws in one case")
            return val(*a, **k)

        return call


class RunawayError(RuntimeError):
    pass


def finite(r, big=1e6):
    """Is the reference step numerically harmless?"""
    vals = [r["phi"], r["dw"], r["dJ"], r["next"].w, r["next"].J]
    return all(np.isfinite(v).all() for v in vals) and max(np.abs(v).max() for v in vals[:3]) < big


class Record:
    """One traced run: spied finder, its tape, per-step states as the library used them."""

    def __init__(self, mix, seed, limit=None, **kw):
        self.mix = mix
        self.tape = Tape()
        self.rng = CountingRNG(seed)
        self.parts = spied_parts(mix, self.tape)
        self.finder = mix.finder(self.rng, self.parts, **kw)
        self.tape.clear()

    def run(self, **kw):
        self.tape.clear()
        ph = self.finder.run(**kw)
        return ph, self.tape.steps()


def step_views(steps):
    """(w, J, phi, incomp, masks) of each recorded step as seen by the ingredients."""
    out = []
    for s in steps:
        p = s["partition"]
        n = s.get("normalize")
        out.append({"w": p.before["omegas"], "J": p.before["Js"],
                    "phi": n.after["phis_comp"] if n else None, "inc": n.result if n else None,
                    "masks": n.before["masks"] if n else None})
    return out


def check_step_state(ctx, mix, st, v, tol=1e-8, what="step"):
    """The library entered a step with fields/volumes v; st is the predicted state."""
    J = st.J * (st.J > mix.thr)
    ctx.close(v["J"], J, f"{what}: volumes used in the step", rtol=tol, atol=tol)
    live = J > 0
    ctx.close(v["w"][:, live], st.w[:, live], f"{what}: fields used in the step", rtol=tol, atol=tol)


def borderline(mix, J, eps=1e-8):
    return bool(np.any((np.abs(J - mix.thr) < eps) & (J != 0)))


def lifecycle(ctx, mix, st0, views, budget, tol=1e-7, strict=True, collect=None):
    """Check a trace of steps against the rules for death and revival.

    st0 is the state before the first step, views the recorded steps, budget the remaining
    number of revivals. Revived fields are checked to lie in the allowed range and adopted
    from the observation. Returns (state after the last step, remaining budget, ok) with
    ok=False when the case became numerically ambiguous.
    """
    st = X.State(st0.w, st0.J, st0.mult)
    for k, v in enumerate(views):
        if borderline(mix, st.J):
            ctx.obs("ambiguous")
            return None, budget, False
        dead = st.J <= mix.thr
        if dead.any():
            if budget > 0:
                lo, hi = st.w.min(1), st.w.max(1)
                c, h = 0.5 * (lo + hi), 0.5 * (hi - lo) * abs(mix.scaler)
                if strict:
                    ctx.close(v["J"][dead], np.ones(dead.sum()), f"step {k}: volume of a revived compartment", rtol=1e-12)
                    nw = v["w"][:, dead]
                    bad = (nw < (c - h)[:, None] - 1e-9) | (nw > (c + h)[:, None] + 1e-9)
                    ctx.ok(not bad.any(), f"step {k}: field of a revived compartment outside the allowed range",
                           got=nw, center=c, halfwidth=h)
                    if collect is not None:
                        wide = h > 1e-9
                        u = (nw[wide] - c[wide, None]) / h[wide, None]
                        if len(u) == len(h):
                            collect.append((u, np.flatnonzero(dead)))
                st.J = st.J.copy()
                st.w = st.w.copy()
                st.J[dead] = 1.0
                st.w[:, dead] = v["w"][:, dead]
                budget -= int(dead.sum())
                ctx.obs("revivals", dead.sum())
            else:
                if strict:
                    ctx.ok(np.all(v["J"][dead] == 0), f"step {k}: a dead compartment keeps a volume", got=v["J"][dead])
                ctx.obs("dead_steps", dead.sum())
        if strict:
            check_step_state(ctx, mix, st, v, tol, f"step {k}")
        # continue from the observed state, so that rounding does not accumulate
        live = v["J"] > mix.thr
        w = np.where(live, v["w"], st.w)
        r = X.step(mix, X.State(w, v["J"], st.mult))
        if not finite(r):
            ctx.obs("diverged")
            return None, budget, False
        if strict and v["phi"] is not None:
            ctx.close(v["phi"], r["phi"], f"step {k}: compositions", rtol=1e-6, atol=1e-9)
        ctx.obs("steps")
        st = r["next"]
        if strict:
            s = st.J[r["mask"] > 0]
            ctx.ok(abs(s.mean() - 1) < 1e-9, "reference volumes are normalised")
    return st, budget, True
