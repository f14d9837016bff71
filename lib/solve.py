"""Mixtures that the finder solves quickly, and solving them."""
import numpy as np

from . import mix as X
from .blown import blown


def solvable(rng, ens="can", block=False, cons=(), maxS=4, minS=2):
    """A mixture for which the finder usually converges within some thousand steps."""
    far = rng.random() < 0.15  # many components
    if block:
        S = int(rng.integers(minS, max(minS, 3) + 1))
        ncpf = rng.integers(1, 3, S)
        if far:
            ncpf[rng.integers(S)] = rng.integers(3, 9)
    else:
        S = int(rng.integers(minS, maxS + 1)) if not far else int(rng.integers(5, 11))
        ncpf = np.ones(S, int)
    N = int(ncpf.sum())
    chi = rng.normal(0, 1, (S, S)) + rng.choice([0.0, 3.0, 4.0])
    chi = 0.5 * (chi + chi.T)
    chi[np.diag_indices(S)] = 0
    sizes = rng.choice([1.0, 1.5, 2.0], N) if rng.random() < 0.6 else np.ones(N)
    if rng.random() < 0.15:
        sizes = rng.uniform(0.4, 5.0, N)
    ev = X.rand_simplex(rng, N, min(0.05, 0.5 / N)) if ens == "can" else rng.uniform(0.3, 2, N)
    k = float(rng.choice([1, 3]))
    return X.Mix(chi=chi, sizes=sizes, ncpf=ncpf, ens=ens, ev=ev, M=int(rng.choice([4, 8, 12])), block=block,
                 aJ=0.002 * k * float(rng.choice([1.0, 1.0, 0.3, 3.0])), aw=0.02 * float(rng.choice([1, 3])), ub=0.01, std=2.0, revive=4,
                 cons=list(cons))


def charges(rng, S, rows):
    """Rows of small coefficients that are not constant."""
    while True:
        C = rng.choice([-1.0, 0.0, 1.0, 2.0], (rows, S))
        if np.linalg.matrix_rank(np.vstack([C, np.ones(S)])) == rows + 1:
            return C


def constrained(rng, ens, block, kinds, rows=1):
    """A solvable mixture with compatible linear constraints of the given kinds."""
    mix = solvable(rng, ens, block, maxS=4, minS=min(4, 2 + len(kinds)))
    ratio, kappa = float(rng.choice([0.3, 1.0, 3.0])), float(rng.choice([0.0, 1.0, 2.0]))
    target = X.to_features(mix, mix.ev) if ens == "can" else X.rand_simplex(rng, mix.S, 0.1)
    target = target / target.sum()
    for kind in kinds:
        C = charges(rng, mix.S, rows)
        scale = float(rng.choice([0.5, 1.0]))
        mix.cons.append(X.Cons(kind, scale * C, scale * C @ target, ratio, kappa))
    return mix


def run(mix, rng, tol, max_steps=20000, interval=100, finder=None, **kw):
    """Run (or continue) and report whether it claims convergence. Returns finder, phases, claimed."""
    f = mix.finder(rng, **kw) if finder is None else finder
    try:
        ph = f.run(max_steps=max_steps, tolerance=tol, interval=interval, progress=False)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise
        return f, None, False
    done = f.diagnostics["steps"]
    inner = max(1, max_steps // int(np.ceil(max_steps / interval)))
    early = done <= max_steps - inner
    return f, ph, early


def mu_error(mix, F, live=None):
    """Largest deviation of chemical potentials between compartments F (P, N), after removing
    the freedom of local constraints; components that are absent are ignored."""
    use = np.all(F > 1e-290, axis=0)
    Fs = F[:, use]
    m = X.mus(mix.chi_full[np.ix_(use, use)], mix.sizes[use], Fs)
    d = m - m.mean(0)
    D = [c.Cs[:, mix.feat][:, use] - c.Ts[:, None] for c in mix.cons if c.kind == "local"]
    if D:
        q, r = np.linalg.qr(np.vstack(D).T)
        q = q[:, np.abs(np.diag(r)) > 1e-9] if min(r.shape) else q
        d = d - (d @ q) @ q.T
    return np.abs(d).max()


def phases_seen(F, eps=1e-2):
    """Number of clearly different compositions."""
    reps = []
    for x in F:
        if all(np.abs(x - y).max() > eps for y in reps):
            reps.append(x)
    return len(reps)
