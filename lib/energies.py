"""Free energies with independent formulas, for the checks of the analysis functions."""
import numpy as np

from . import mix as X
from .lazy import flory


class Ref:
    """Independent formulas for chi (N, N), sizes (N,) and an optional cubic term sum_i k_i phi_i^3."""

    def __init__(self, chi, sizes, cubic=None):
        self.chi, self.sizes = np.array(chi, float), np.array(sizes, float)
        self.cubic = np.zeros(len(self.sizes)) if cubic is None else np.array(cubic, float)

    @property
    def N(self):
        return len(self.sizes)

    def energy(self, p):
        return X.energy(self.chi, self.sizes, p) + (self.cubic * p**3).sum(-1)

    def jacobian(self, p):
        return X.jacobian(self.chi, self.sizes, p) + 3 * self.cubic * p**2

    def phij(self, p):
        return ((X.xlogx(p) + p) / self.sizes + (p @ self.chi) * p + 3 * self.cubic * p**3).sum(-1)

    def mus(self, p):
        return (self.energy(p) - self.phij(p))[..., None] + self.jacobian(p)

    def hessian(self, p):
        h = X.hessian(self.chi, self.sizes, p)
        i = np.arange(self.N)
        h[..., i, i] += 6 * self.cubic * p
        return h

    def reduced_hessian(self, p, index):
        """Curvature in the coordinates phi_j (j != index), phi_index = 1 - sum."""
        N = self.N
        keep = [j for j in range(N) if j != index % N]
        B = np.zeros((N, N - 1))
        for k, j in enumerate(keep):
            B[j, k] = 1.0
        B[index % N] = -1.0
        return B.T @ self.hessian(p) @ B


def custom(N, chi, sizes, cubic):
    """A user-defined free energy made of user-defined interaction and entropy."""

    class Cubic(flory.InteractionBase):
        def _energy_impl(self, phis):
            return 0.5 * ((phis @ chi) * phis).sum(-1) + (cubic * phis**3).sum(-1)

        def _jacobian_impl(self, phis):
            return phis @ chi + 3 * cubic * phis**2

        def _hessian_impl(self, phis):
            out = np.zeros(phis.shape + (N,)) + chi
            for i in range(N):
                out[..., i, i] += 6 * cubic[i] * phis[..., i]
            return out

    return flory.FreeEnergyBase(Cubic(N), flory.IdealGasEntropy(N, sizes))


def make(rng, maxN=6, kind=None):
    """A random free energy object together with its reference. Returns (fe, ref, how)."""
    kind = int(rng.integers(6)) if kind is None else kind
    N = int(rng.integers(1, maxN + 1))
    if kind in (0, 1, 2):
        chi, sizes = X.rand_chi(rng, N), X.rand_sizes(rng, N)
        if kind == 0:
            return flory.FloryHuggins(N, chi, sizes), Ref(chi, sizes), "constructor"
        if kind == 1:  # parameters changed by setters
            fe = flory.FloryHuggins(N, X.rand_chi(rng, N), X.rand_sizes(rng, N))
            fe.free_energy_density(np.full(N, 1 / N))
            fe.chis = chi
            if rng.random() < 0.5:
                fe.sizes = sizes
            else:
                fe.entropy.sizes = sizes
            return fe, Ref(chi, sizes), "setters"
        fe = flory.FreeEnergyBase(flory.FloryHugginsInteraction(N, chi), flory.IdealGasEntropy(N, sizes))
        if rng.random() < 0.5:
            chi = X.rand_chi(rng, N)
            fe.interaction.chis = chi
        return fe, Ref(chi, sizes), "parts"
    if kind == 3:
        S = int(rng.integers(1, 4))
        ncpf = rng.integers(0 if S > 1 else 1, 4, S)
        ncpf[0] = max(1, ncpf[0])
        N = int(ncpf.sum())
        chi, sizes = X.rand_chi(rng, S), X.rand_sizes(rng, N)
        inter = flory.FloryHugginsBlockInteraction(S, chi, ncpf)
        ent = flory.IdealGasPolydispersedEntropy(S, sizes, ncpf)
        how = "block"
        if rng.random() < 0.5:
            chi, sizes, how = X.rand_chi(rng, S), X.rand_sizes(rng, N), "block setters"
            inter.chis_feat = chi
            ent.sizes = sizes
        f = np.repeat(np.arange(S), ncpf)
        return flory.FreeEnergyBase(inter, ent), Ref(chi[np.ix_(f, f)], sizes), how
    if kind == 4:
        chi = float(rng.normal(0, 3))
        van = bool(rng.random() < 0.5)
        sizes = None if rng.random() < 0.3 else (2.0 if rng.random() < 0.3 else X.rand_sizes(rng, N))
        fe = flory.FloryHuggins.from_uniform(N, chi, sizes=sizes, vanishing_diagonal=van)
        m = np.full((N, N), chi)
        if van:
            np.fill_diagonal(m, 0)
        return fe, Ref(m, np.broadcast_to(1.0 if sizes is None else sizes, (N,))), "uniform"
    chi, sizes, cubic = X.rand_chi(rng, N), X.rand_sizes(rng, N), rng.normal(0, 1, N)
    return custom(N, chi, sizes, cubic), Ref(chi, sizes, cubic), "custom"


def tiny(rng, p):
    """Some components nearly absent."""
    p = np.array(p, float)
    if p.shape[-1] > 1 and p.size:
        z = rng.random(p.shape) < 0.4
        z[..., rng.integers(p.shape[-1])] = False
        p = np.where(z, p * 10 ** rng.uniform(-11, -2, p.shape), p)
    return p / p.sum(-1, keepdims=True)


def compositions(rng, N, positive=False, small=False):
    """Random batch of compositions: shape (..., N)."""
    shape = [(), (1,), (3,), (7,), (2, 3), (1, 1), (2, 1, 2), (0,), (N,), (N, N), (N, N + 1)][rng.choice(11)]
    p = rng.dirichlet(np.ones(N), size=shape if shape else None)
    p = np.array(p, float)
    if N == 1:
        p = np.ones(shape + (1,))
    if positive:
        p = 0.02 / N + 0.98 * p
        if small and rng.random() < 0.3:
            p = tiny(rng, p)
    elif p.size and rng.random() < 0.15:  # strongly unequal
        p = p ** rng.uniform(2, 12)
        p = p / p.sum(-1, keepdims=True)
    elif p.size and rng.random() < 0.3:  # absent components and pure ones
        z = rng.random(p.shape) < 0.3
        p[z] = 0
    if rng.random() < 0.2:  # the functions do not require that fractions add up to one
        p = p * rng.uniform(0.3, 1.5)
    return p
