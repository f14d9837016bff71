"""Mixtures: random generation, construction of library objects, expansion, reference model.

The reference model is written from the documentation (theory and class docs), vectorised
over compartments, and does not use any function of the library.
"""
import dataclasses as dc

import numpy as np

from .lazy import flory


@dc.dataclass
class Cons:
    kind: str  # "local" or "global"
    Cs: np.ndarray  # (A, S)
    Ts: np.ndarray  # (A,)
    ratio: float = 1.0
    kappa: float = 1.0

    def make(self):
        cls = flory.LinearLocalConstraint if self.kind == "local" else flory.LinearGlobalConstraint
        return cls(self.Cs.shape[1], self.Cs.copy(), self.Ts.copy())


@dc.dataclass
class Mix:
    chi: np.ndarray  # (S, S) feature interaction matrix (symmetric)
    sizes: np.ndarray  # (N,)
    ncpf: np.ndarray  # (S,) number of components per feature
    ens: str  # "can" or "gc"
    ev: np.ndarray  # mean fractions or scaled activities (N,)
    cons: list = dc.field(default_factory=list)
    M: int = 8
    shift: float = 1.0  # additional_chis_shift
    block: bool = False  # use the feature-based classes
    # iteration parameters
    aJ: float = 0.0002
    aw: float = 0.002
    ub: float = 0.001
    thr: float = 0.0
    scaler: float = 1.0
    revive: int = 16
    std: float = 5.0

    @property
    def N(self):
        return len(self.sizes)

    @property
    def S(self):
        return len(self.ncpf)

    @property
    def feat(self):
        return np.repeat(np.arange(self.S), self.ncpf)

    @property
    def chi_full(self):
        f = self.feat
        return self.chi[np.ix_(f, f)]

    def copy(self, **kw):
        new = dc.replace(self, chi=self.chi.copy(), sizes=self.sizes.copy(), ncpf=self.ncpf.copy(), ev=self.ev.copy(),
                         cons=[dc.replace(c, Cs=c.Cs.copy(), Ts=c.Ts.copy()) for c in self.cons])
        return dc.replace(new, **kw)

    def expanded(self):
        """The same mixture described component by component."""
        f = self.feat
        return self.copy(chi=self.chi_full, ncpf=np.ones(self.N, int), block=False,
                         cons=[dc.replace(c, Cs=c.Cs[:, f].copy(), Ts=c.Ts.copy()) for c in self.cons])

    # ---- library objects
    def interaction(self):
        if self.block:
            return flory.FloryHugginsBlockInteraction(self.S, self.chi.copy(), self.ncpf.copy())
        return flory.FloryHugginsInteraction(self.S, self.chi.copy())

    def entropy(self):
        if self.block:
            return flory.IdealGasPolydispersedEntropy(self.S, self.sizes.copy(), self.ncpf.copy())
        return flory.IdealGasEntropy(self.N, self.sizes.copy())

    def ensemble(self):
        if self.ens == "can":
            return flory.CanonicalEnsemble(self.N, self.ev.copy())
        return flory.GrandCanonicalEnsemble(self.N, self.ev.copy())

    def constraints(self):
        return [c.make() for c in self.cons]

    def free_energy(self):
        if self.block:
            return flory.FreeEnergyBase(self.interaction(), self.entropy())
        return flory.FloryHuggins(self.N, self.chi.copy(), self.sizes.copy())

    def options(self):
        o = dict(num_part=self.M, acceptance_Js=self.aJ, acceptance_omega=self.aw, Js_step_upper_bound=self.ub,
                 kill_threshold=self.thr, revive_scaler=self.scaler, max_revive_per_compartment=self.revive,
                 random_std=self.std, additional_chis_shift=self.shift, progress=False)
        if self.cons:
            o.update(constraint_acceptance_ratio=self.cons[0].ratio, constraint_elasticity=self.cons[0].kappa)
        return o

    def finder(self, rng=0, parts=None, **kw):
        """Create a finder (parts may override interaction/entropy/ensemble/constraints)."""
        parts = parts or {}
        if not hasattr(rng, "normal"):
            rng = np.random.default_rng(rng)
        cons = parts.get("constraints", self.constraints() or None)
        f = flory.CoexistingPhasesFinder(
            parts.get("interaction") or self.interaction(), parts.get("entropy") or self.entropy(),
            parts.get("ensemble") or self.ensemble(), cons, rng=rng, **{**self.options(), **kw})
        if len({(c.ratio, c.kappa) for c in self.cons}) > 1 and isinstance(cons, list) and len(cons) == len(self.cons):
            f.set_constraints(cons, kwargs_individual=[dict(constraint_acceptance_ratio=c.ratio, constraint_elasticity=c.kappa) for c in self.cons])
        return f

    def describe(self):
        d = dc.asdict(self)
        d.pop("cons")
        d["cons"] = [{"kind": c.kind, "Cs": c.Cs, "Ts": c.Ts, "ratio": c.ratio, "kappa": c.kappa} for c in self.cons]
        return d

    def signature(self):
        return (self.N, self.S, self.M, self.ens, self.block, tuple((c.kind, len(c.Ts)) for c in self.cons))


# ------------------------------------------------------------------------ reference model


class State:
    """State of the iteration: fields, relative volumes, constraint multipliers."""

    def __init__(self, w, J, mult):
        self.w, self.J, self.mult = np.array(w, float), np.array(J, float), [np.array(m, float) for m in mult]


def fresh_state(mix, w):
    mult = [np.zeros((len(c.Ts), mix.M)) if c.kind == "local" else np.zeros(len(c.Ts)) for c in mix.cons]
    return State(w, np.ones(mix.M), mult)


def incomp_coef(mix):
    """Documented for the Flory-Huggins interaction: sum of the matrix after shifting its
    minimum to additional_chis_shift."""
    return mix.chi.sum() + (mix.shift - mix.chi.min()) * mix.S**2


def fractions(mix, w, J, mask=None):
    """Volume fractions of components (N, M) for given fields and volumes."""
    mask = np.ones(mix.M) if mask is None else mask
    p = np.exp(-mix.sizes[:, None] * w[mix.feat])
    if mix.ens == "can":
        Q = (p * J).sum(1) / J.sum()
        return (mix.ev / Q)[:, None] * p * mask
    return mix.ev[:, None] * p * mask


def to_features(mix, phis):
    out = np.zeros((mix.S,) + phis.shape[1:])
    np.add.at(out, mix.feat, phis)
    return out


def step(mix, st, coef=None, energy=None):
    """One documented step from st (volumes already masked). Returns a dict.

    energy(phis_feat) -> (potential, volume derivative) may replace the Flory-Huggins
    interaction, coef its incompressibility coefficient.
    """
    r = {}
    mask = (st.J > mix.thr).astype(float)
    J = st.J * mask
    n = mask.sum()
    phi = fractions(mix, st.w, J, mask)
    phf = to_features(mix, phi)
    inc = (phi.sum(0) - 1) * mask
    if energy is None:
        pot = mix.chi @ phf
        vd = 0.5 * (pot * phf).sum(0)
    else:
        pot, vd = energy(phf)
    coef = incomp_coef(mix) if coef is None else coef
    cpot, cvd, cres = np.zeros_like(pot), np.zeros(mix.M), []
    for c, m in zip(mix.cons, st.mult):
        res = c.Cs @ phf - c.Ts[:, None]
        if c.kind == "local":
            res = res * mask
            cpot = cpot + (c.Cs.T @ (m + 2 * c.kappa * res)) * mask
            cvd = cvd + (res * (m + c.kappa * res)).sum(0) * mask
            cres.append(res)
        else:
            tot = (res * J).sum(1)
            cpot = cpot + np.outer(c.Cs.T @ (m + 2 * c.kappa * tot), mask)
            cvd = cvd + ((m + 2 * c.kappa * tot) @ res) * mask
            cres.append(tot / J.sum())
    xi = (coef * inc + (st.w - pot - cpot).sum(0)) * mask / mix.S
    target = pot + cpot + xi
    le = vd - (phi / mix.sizes[:, None]).sum(0) + xi * inc + cvd - (target * phf).sum(0)
    dJ = ((J * le).sum() / n - le) * mask
    dw = (target - st.w) * mask
    maxdJ = np.abs(dJ).max()
    fac = mix.ub / max(mix.ub, mix.aJ * maxdJ)
    J2 = (J + fac * mix.aJ * dJ) * mask
    J2 = (J2 + 1 - J2.sum() / n) * mask
    w2 = (st.w + fac * mix.aw * dw) * mask
    mult2 = []
    for c, m, res in zip(mix.cons, st.mult, cres):
        m2 = m + fac * mix.aw * c.ratio * res
        mult2.append(m2 * mask if c.kind == "local" else m2)
    r.update(mask=mask, n=n, J=J, phi=phi, phf=phf, inc=inc, pot=pot, xi=xi, target=target, le=le, dJ=dJ, dw=dw, fac=fac,
             next=State(w2, J2, mult2), res_inc=np.abs(inc).max(), res_w=np.abs(dw).max(), res_J=maxdJ,
             res_c=max([np.abs(x).max() for x in cres], default=0.0))
    return r


# --------------------------------------------------------------------- independent physics


def xlogx(x):
    return np.where(x > 0, x * np.log(np.where(x > 0, x, 1.0)), 0.0)


def energy(chi, sizes, phi):
    """Flory-Huggins free energy density; components along the last axis."""
    phi = np.asarray(phi, float)
    return (xlogx(phi) / sizes).sum(-1) + 0.5 * ((phi @ chi) * phi).sum(-1)


def jacobian(chi, sizes, phi):
    return (np.log(phi) + 1) / sizes + phi @ chi


def mus(chi, sizes, phi):
    """Original chemical potentials per volume."""
    phi = np.asarray(phi, float)
    f = energy(chi, sizes, phi)
    phij = ((xlogx(phi) + phi) / sizes + (phi @ chi) * phi).sum(-1)
    return (f - phij)[..., None] + jacobian(chi, sizes, phi)


def hessian(chi, sizes, phi):
    phi = np.asarray(phi, float)
    h = np.zeros(phi.shape + (phi.shape[-1],)) + chi
    i = np.arange(phi.shape[-1])
    h[..., i, i] += 1 / (phi * sizes)
    return h


# ----------------------------------------------------------------------------- generation


def rand_simplex(rng, n, lo=0.0):
    x = rng.dirichlet(np.ones(n))
    return lo + (1 - n * lo) * x if n * lo < 1 else np.full(n, 1 / n)


def rand_chi(rng, n, scale=None):
    scale = rng.choice([0.5, 2.0, 4.0]) if scale is None else scale
    a = rng.normal(0, scale, (n, n)) + rng.normal(0, 1)
    a = 0.5 * (a + a.T)
    if rng.random() < 0.5:
        a[np.diag_indices(n)] = 0
    return a


def rand_sizes(rng, n):
    k = rng.integers(4)
    if k == 0:
        return np.ones(n)
    if k == 1:
        return rng.integers(1, 5, n).astype(float)
    return rng.uniform(0.3, 3.0, n)


def rand_cons(rng, S, kinds=None, maxcons=3):
    out = []
    kinds = [rng.choice(["local", "global"]) for _ in range(rng.integers(1, maxcons + 1))] if kinds is None else kinds
    ratio, kappa = rng.choice([0.3, 1.0, 2.0]), rng.choice([0.0, 0.5, 1.0, 3.0])
    for k in kinds:
        A = int(rng.integers(1, 3))
        out.append(Cons(str(k), rng.normal(0, 1, (A, S)), rng.choice([0.0, 0.3, -0.2], A) + 0.0, float(ratio), float(kappa)))
    return out


def rand_mix(rng, maxN=6, maxM=24, block=None, ens=None, cons=None, wild=True, tail=0.3):
    """A random mixture in a random configuration (for step-level checks).

    With probability tail one or two dimensions are taken from far outside the usual range.
    """
    far = set(rng.choice(["N", "sizes", "chi", "rows", "M", "thr", "shift", "scaler", "ev", "objects", "std"], 2).tolist()) if rng.random() < tail else set()
    block = bool(rng.random() < 0.4) if block is None else block
    if block:
        S = int(rng.integers(1, 5)) if "N" not in far and rng.random() < 0.9 else int(rng.integers(1, 10))
        ncpf = rng.integers(1, 4, S)
        if "N" in far:
            ncpf[rng.integers(S)] = rng.integers(4, 12)
        if wild and S > 1 and rng.random() < 0.15:
            ncpf[rng.integers(S)] = 0
        if ncpf.sum() == 0:
            ncpf[0] = 1
    else:
        S = int(rng.integers(1, maxN + 1)) if "N" not in far else int(rng.integers(maxN + 1, 21))
        ncpf = np.ones(S, int)
    N = int(ncpf.sum())
    ens = str(rng.choice(["can", "gc"], p=[0.65, 0.35])) if ens is None else ens
    if ens == "can":
        ev = rand_simplex(rng, N)
        if "ev" in far:
            ev = ev * 10 ** rng.uniform(-12, 0, N)
            ev /= ev.sum()
        if wild and N > 1 and rng.random() < 0.1:
            ev[rng.integers(N)] = 0.0
            ev /= ev.sum()
        if wild and rng.random() < 0.1:
            ev = ev * rng.uniform(0.8, 1.2)
    else:
        ev = rng.uniform(0.05, 1.5, N)
        if "ev" in far:
            ev = ev * 10 ** rng.uniform(-6, 1.5, N)
    cl = []
    if cons is None or cons is True:
        if cons or rng.random() < 0.5:
            cl = rand_cons(rng, S, maxcons=3 if "objects" not in far else 5)
    elif cons:
        cl = rand_cons(rng, S, cons)
    if "rows" in far:
        for c in cl:
            A = int(rng.integers(2, 6))
            c.Cs, c.Ts = rng.normal(0, rng.choice([0.3, 1.0, 3.0]), (A, S)), rng.normal(0, 0.5, A)
    M = int(rng.integers(1, maxM + 1)) if rng.random() < 0.9 else int(rng.integers(maxM, 4 * maxM))
    if "M" in far:
        M = int(rng.integers(40, 200))
    sizes = rand_sizes(rng, N)
    if "sizes" in far:
        sizes = 10 ** rng.uniform(-1.5, 1.3, N)
    chi = rand_chi(rng, S)
    if "chi" in far:
        chi = rand_chi(rng, S, 12.0)
    thr = float(rng.choice([0.0, 0.0, 0.0, 0.05, 0.2]))
    if "thr" in far:
        thr = float(rng.uniform(0.0, 0.8))
    shift = float(rng.choice([1.0, 1.0, 0.3, 2.5]))
    if "shift" in far:
        shift = float(rng.choice([0.01, 8.0, 30.0]))
    scaler = float(rng.choice([1.0, 0.5, 1.3]))
    if "scaler" in far:
        scaler = float(rng.choice([0.0, 2.0, 4.0]))
    std = float(rng.choice([0.3, 1.0, 2.0]))
    if "std" in far:
        std = float(rng.choice([0.0, 4.0, 6.0]))
    if "sizes" in far:
        std = std / max(1.0, sizes.max() / 4)
    return Mix(chi=chi, sizes=sizes, ncpf=ncpf, ens=ens, ev=ev, cons=cl, M=M, shift=shift, block=block,
               aJ=float(10 ** rng.uniform(-4, -1.5)), aw=float(10 ** rng.uniform(-3, -1)), ub=float(10 ** rng.uniform(-4, -1)),
               thr=thr, scaler=scaler, revive=int(rng.choice([0, 1, 2, 16])), std=std)
