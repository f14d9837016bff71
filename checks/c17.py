"""C17: random compositions and interactions follow the stated distributions."""
import numpy as np
from scipy import stats

from lib import mix as X
from lib.blown import blown
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Thousands of samples per case for component numbers from 1 to 40, through every way of supplying randomness; exact oracles per sample "
        "(non-negative, sum, symmetry, diagonal, reproducibility) and distribution tests over the recorded samples (marginals, subset sums, ratios, "
        "order, correlations between entries and between successive samples). Non-trivial: at least 1000 random samples entered the tests; distinct "
        "by function, number of components, parameters and previous matrix.")
ASSUMPTIONS = ["a distribution test alarms for p < 1e-10, so deviations that are invisible in the number of samples drawn are not detected"]
PMIN = 1e-10


def pval(ctx, p, what, **kw):
    ctx.obs("tests")
    ctx.ok(p > PMIN, "not distributed as stated: " + what, p=float(p), **kw)


def ks(ctx, x, cdf, what, **kw):
    pval(ctx, stats.kstest(x, cdf).pvalue, what, **kw)


def corr(ctx, a, b, what, **kw):
    """a and b (n samples) are independent: rank correlations of values and of magnitudes vanish."""
    n = len(a)
    for f in (lambda v: v, lambda v: np.abs(v - np.median(v))):
        x, y = stats.rankdata(f(a)), stats.rankdata(f(b))
        if x.std() == 0 or y.std() == 0:
            continue
        z = np.corrcoef(x, y)[0, 1] * np.sqrt(n)
        pval(ctx, 2 * stats.norm.sf(abs(z)), what + " are correlated", **kw)


def sampler(rng, N):
    """A source of samples and its name."""
    fun = flory.common.phases.get_uniform_random_composition
    k = int(rng.integers(5))
    seed = int(rng.integers(2**31))
    if k == 0:
        g = np.random.default_rng(seed)
        return (lambda j: fun(N, g)), "generator"
    if k == 1:
        return (lambda j: fun(N, seed + j)), "seed"
    if k == 2:
        g = np.random.Generator(np.random.MT19937(seed))
        return (lambda j: fun(num_comps=np.int64(N), rng=g)), "mt19937"
    if k == 3:
        ss = np.random.SeedSequence(seed)
        kids = iter(ss.spawn(200000))
        return (lambda j: fun(N, rng=next(kids))), "seedsequence"
    return (lambda j: fun(N)), "none"


def simplex(ctx, rng, i):
    N = int([1, 2, 3, 4, 5, 6, 8, 12, 20, 40][i % 10])
    draw, how = sampler(rng, N)
    n = {1: 200, 20: 5000, 40: 3000}.get(N, 8000 if ctx.tier == "quick" else 30000)
    if how == "seedsequence":
        n = min(n, 4000)
    ctx.describe(N=N, how=how, samples=n)
    S = np.array([draw(j) for j in range(n)])
    ctx.ok(S.shape == (n, N) and S.dtype == float, "shape of random compositions", got=S.shape)
    ctx.ok(np.isfinite(S).all() and S.min() >= 0, "negative fraction", got=S.min())
    ctx.ok(np.abs(S.sum(1) - 1).max() < 1e-12, "fractions do not add up to one", got=np.abs(S.sum(1) - 1).max())
    ctx.obs("compositions", n)
    ctx.obs("how:" + how)
    if N == 1:
        return
    ctx.ok(len(np.unique(S[:, 0])) > 0.99 * n, "samples repeat", got=len(np.unique(S[:, 0])))
    for c in range(N):  # all components equivalent
        ks(ctx, S[:, c], stats.beta(1, N - 1).cdf, "marginal of a component", component=c)
        corr(ctx, S[:-1, c], S[1:, c], "successive samples", component=c)
    # uniform on the simplex: sums over subsets are Beta(k, N-k)
    for _ in range(6):
        k = int(rng.integers(1, N))
        sub = rng.permutation(N)[:k]
        ks(ctx, S[:, sub].sum(1), stats.beta(k, N - k).cdf, "sum over a subset of components", subset=sub)
    # aggregated stick-breaking ratios in a random order are independent Beta(1, m)
    perm = rng.permutation(N)
    P = S[:, perm]
    rest = np.cumsum(P[:, ::-1], axis=1)[:, ::-1]
    ratios = P[:, :-1] / rest[:, :-1]
    for c in range(N - 1):
        ks(ctx, ratios[:, c], stats.beta(1, N - 1 - c).cdf, "conditional fraction", order=perm, position=c)
        if c:
            corr(ctx, ratios[:, c - 1], ratios[:, c], "conditional fractions")
            corr(ctx, ratios[:, 0], ratios[:, c], "conditional fractions")
    # position of the largest and the smallest component
    for f in (np.argmax, np.argmin):
        cnt = np.bincount(f(S, axis=1), minlength=N)
        pval(ctx, stats.chisquare(cnt).pvalue, "position of extremal component", counts=cnt)
    ks(ctx, np.log(S).sum(1)[:n // 2], lambda x: ecdf_log(N, x), "distribution of the product")
    ctx.nontrivial("simplex", N, how)


_ref = {}


def ecdf_log(N, x):
    """CDF of sum ln phi_i for the uniform distribution, from a large independent sample."""
    if N not in _ref:
        g = np.random.default_rng(99)
        e = g.exponential(size=(200000 if N <= 12 else 60000, N))
        _ref[N] = np.sort(np.log(e / e.sum(1, keepdims=True)).sum(1))
    return np.searchsorted(_ref[N], x) / len(_ref[N])


def seeds(ctx, rng, i):
    """Given generators or seeds determine the outcome; nothing else does."""
    fun = flory.common.phases.get_uniform_random_composition
    N = int(rng.integers(2, 9))
    seed = int(rng.integers(2**40))
    kw = dict(chi_mean=float(rng.normal()), chi_std=float(rng.uniform(0.1, 3)), vanishing_diagonal=bool(rng.random() < 0.5))
    ctx.describe(N=N, seed=seed, **kw)

    def once():
        g = np.random.default_rng(seed)
        o = [fun(N, seed), fun(N, g), fun(N, g), flory.FloryHugginsInteraction.from_random_normal(N, rng=g, **kw).chis.copy(),
             flory.FloryHugginsInteraction.from_random_normal(N, rng=g, **kw).chis.copy(), flory.FloryHuggins.from_random_normal(N, rng=g, **kw).chis.copy()]
        it = flory.FloryHugginsInteraction(N, 1)
        it.set_random_chis(rng=g, **kw)
        o.append(it.chis.copy())
        return o, g

    np.random.seed(int(rng.integers(2**31)))
    a, ga = once()
    np.random.seed(int(rng.integers(2**31)))
    st = np.random.get_state()[1].copy()
    pos = np.random.get_state()[2]
    flory.FloryHugginsInteraction.from_random_normal(3)  # unrelated use
    fun(3)
    b, gb = once()
    ctx.ok(np.array_equal(st, np.random.get_state()[1]) and pos == np.random.get_state()[2], "the global random state was used")
    for x, y in zip(a, b):
        ctx.ok(np.array_equal(x, y), "equal seeds gave different outcomes", a=x, b=y)
    ctx.ok(ga.random() == gb.random(), "generators advanced differently")
    ctx.ok(np.array_equal(a[0], a[1]), "a seed and a generator with this seed differ")
    ctx.ok(not np.array_equal(a[1], a[2]), "a generator gave the same composition twice")
    for x, y in ((3, 4), (4, 5), (5, 6)):
        ctx.ok(not np.array_equal(a[x], a[y]), "a generator gave the same matrix twice")
    g2 = np.random.default_rng(seed + 1)
    ctx.ok(not np.array_equal(flory.FloryHugginsInteraction.from_random_normal(N, rng=g2, **kw).chis, a[3]), "different seeds gave the same matrix")
    u, v = flory.FloryHugginsInteraction.from_random_normal(N, **kw).chis, flory.FloryHugginsInteraction.from_random_normal(N, **kw).chis
    ctx.ok(not np.array_equal(u, v), "unseeded matrices are equal")
    ctx.ok(not np.array_equal(fun(N), fun(N)), "unseeded compositions are equal")
    ctx.obs("seeds")
    ctx.nontrivial("seeds", N, kw["vanishing_diagonal"])


def previous(rng, N):
    """An interaction with some previous matrix."""
    k = int(rng.integers(8))
    m = rng.normal(0, 5, (N, N))
    m = m + m.T
    if k == 0:
        return flory.FloryHugginsInteraction(N, 0), "zero"
    if k == 1:
        return flory.FloryHugginsInteraction(N, np.full((N, N), 7)), "int"
    if k == 2:
        return flory.FloryHugginsInteraction(N, m.astype(np.float32)), "float32"
    if k == 3:
        return flory.FloryHugginsInteraction(N, np.asfortranarray(m)), "fortran"
    if k == 4:
        it = flory.FloryHugginsInteraction(N, 3)
        it.set_uniform_chis(int(rng.integers(1, 9)), vanishing_diagonal=bool(rng.random() < 0.5))
        return it, "uniform int"
    if k == 5:
        it = flory.FloryHugginsInteraction.from_random_normal(N, 4, 3, vanishing_diagonal=False)
        return it, "random"
    if k == 6:
        it = flory.FloryHugginsInteraction(N, 3.5)
        it.chis = np.rint(m).astype(int)
        return it, "setter int"
    it = flory.FloryHugginsInteraction(N, 2)
    it.chis = m
    return it, "setter"


def matrices(ctx, rng, i):
    N = int([2, 3, 4, 5, 7, 10][i % 6])
    mean, std = [(0, 1), (2.5, 0.3), (-4, 2), (0.0, 3.0), (1e3, 1.0), (0, 1e-3)][rng.integers(6)]
    van = bool(rng.random() < 0.5)
    mode = str(rng.choice(["from", "fe", "set", "reset", "defaults"]))
    if mode == "defaults":
        mean, std, van = 0, 1, True
    n = 1500 if N <= 5 else 500
    if ctx.tier != "quick":
        n *= 4
    g = np.random.default_rng(int(rng.integers(2**40)))
    it, prev = previous(rng, N)
    ctx.describe(N=N, mean=mean, std=std, vanishing=van, mode=mode, previous=prev, samples=n)
    V = np.empty((n, N, N))
    sizes = rng.uniform(0.5, 2, N)
    for j in range(n):
        kw = dict(vanishing_diagonal=van, rng=g)
        if mode == "from":
            o = flory.FloryHugginsInteraction.from_random_normal(N, mean, std, **kw)
        elif mode == "fe":
            o = flory.FloryHuggins.from_random_normal(N, mean, std, sizes=sizes, **kw)
            ctx.ok(np.array_equal(o.sizes, sizes), "sizes of a random free energy")
        elif mode == "set":
            if j % 25 == 0:
                it, prev = previous(rng, N)
                ctx.obs("previous:" + prev)
            it.set_random_chis(mean, std, **kw)
            o = it
        elif mode == "reset":
            it.set_random_chis(mean, std, **kw)
            o = it
        else:
            o = flory.FloryHugginsInteraction.from_random_normal(N, rng=g) if j % 2 else flory.FloryHuggins.from_random_normal(N, rng=g)
        m = o.chis
        ctx.ok(m.shape == (N, N) and np.issubdtype(m.dtype, np.floating), "type of a random matrix", dtype=str(m.dtype))
        ctx.ok(np.array_equal(m, m.T), "random matrix is not symmetric", chi=m)
        d = np.diag(m)
        ctx.ok((d == 0).all() if van else not (d == 0).any(), "vanishing diagonal exactly if requested", chi=m, requested=van)
        V[j] = m
        if j < 4:
            p = rng.dirichlet(np.ones(N))
            f = o if not hasattr(o, "interaction") else o.interaction
            ctx.close(f.energy(p) if hasattr(f, "energy") else f._energy_impl(p), 0.5 * p @ m @ p, "energy does not use the random matrix", rtol=1e-6)
            if hasattr(f, "independent_entries"):
                ctx.ok(np.array_equal(np.sort(f.independent_entries), np.sort(m[np.triu_indices(N)])), "independent entries")
    ctx.obs("matrices", n)
    iu = np.triu_indices(N, 1 if van else 0)
    Z = (V[:, iu[0], iu[1]] - mean) / std
    f32 = prev == "float32" or mode in ("set", "reset")
    for c in range(Z.shape[1]):
        ks(ctx, Z[:, c], "norm", "entry of the interaction matrix", entry=[int(iu[0][c]), int(iu[1][c])]) if not (f32 and abs(mean) > 100 * std) else None
        pval(ctx, 2 * stats.norm.sf(abs(Z[:, c].mean()) * np.sqrt(n)), "mean of an entry")
        pval(ctx, chi2p(Z[:, c]), "standard deviation of an entry", entry=[int(iu[0][c]), int(iu[1][c])])
        corr(ctx, Z[:-1, c], Z[1:, c], "entries of successive matrices")
    flat = Z.ravel()
    pval(ctx, 2 * stats.norm.sf(abs(flat.mean()) * np.sqrt(flat.size)), "mean of all entries")
    pval(ctx, chi2p(flat), "standard deviation of all entries", std=flat.std())
    # independence: every pair for small matrices, otherwise random ones, and row sums of squares
    K = Z.shape[1]
    pairs = [(a, b) for a in range(K) for b in range(a)]
    for q in rng.permutation(len(pairs))[:60]:
        a, b = pairs[q]
        corr(ctx, Z[:, a], Z[:, b], "different entries", entries=[a, b])
    if K > 1:
        pval(ctx, chi2p(Z.sum(1) / np.sqrt(K)), "variance of the sum of entries")
    ctx.obs("van" if van else "full")
    ctx.obs("mode:" + mode)
    ctx.nontrivial("matrices", N, mean, std, van, mode, prev)


def large(ctx, rng, i):
    """Large matrices: independence within a matrix and tails of the distribution."""
    van, mean, std = bool(rng.random() < 0.5), float(rng.normal(0, 2)), float(rng.uniform(0.2, 3))
    g = np.random.default_rng(int(rng.integers(2**40)))
    N, n = (int(rng.integers(11, 70)), 60) if i % 3 else (int(rng.integers(150, 450)), 2)
    ctx.describe(N=N, mean=mean, std=std, vanishing=van, samples=n)
    iu, Z, it = np.triu_indices(N, 1 if van else 0), [], flory.FloryHugginsInteraction(N, 1.0)
    for j in range(n):
        if j % 2:
            it.set_random_chis(mean, std, vanishing_diagonal=van, rng=g)
            m = it.chis
        else:
            m = flory.FloryHuggins.from_random_normal(N, mean, std, vanishing_diagonal=van, rng=g).chis
        ctx.ok(np.array_equal(m, m.T), "random matrix is not symmetric", components=N)
        ctx.ok((np.diag(m) == 0).all() if van else not (np.diag(m) == 0).any(), "vanishing diagonal exactly if requested", components=N)
        z = (m - mean) / std
        Z.append(z[iu])
        rows = (z * (1 - np.eye(N))).sum(1)  # sums of rows have known variance and share one entry with each other
        pval(ctx, 2 * stats.norm.sf(abs(rows.sum()) / np.sqrt(2 * N * (N - 1))), "sum of all entries of a matrix", components=N)
    Z = np.array(Z)
    flat = Z.ravel()
    ks(ctx, flat, "norm", "entries of large matrices", components=N)
    pval(ctx, chi2p(flat), "standard deviation of large matrices", components=N)
    if n > 2:
        pval(ctx, chi2p(Z.sum(1) / np.sqrt(Z.shape[1])), "variance of the sum of entries", components=N)
        pval(ctx, chi2p((Z**2 - 1).sum(1) / np.sqrt(2 * Z.shape[1])) if Z.shape[1] > 500 else 1.0, "variance of the sum of squares", components=N)
    for lim in (1.0, 2.0, 3.0, 3.5):
        for sign in (-1, 1):
            k = int((sign * flat > lim).sum())
            pval(ctx, stats.binomtest(k, flat.size, float(stats.norm.sf(lim))).pvalue, "number of entries in the tail", limit=sign * lim, number=k, of=flat.size)
    ctx.ok(len(np.unique(flat)) > 0.999 * flat.size, "entries repeat", different=len(np.unique(flat)), of=flat.size)
    ctx.obs("large_matrices", n)
    ctx.nontrivial("large", N, van)


def chi2p(z):
    """Two-sided p-value for the second moment of standard normal samples (mean known)."""
    s = (z**2).sum()
    return 2 * min(stats.chi2.sf(s, len(z)), stats.chi2.cdf(s, len(z)))


def uniform(ctx, rng, i):
    """Matrices that are not random: uniform ones, and zero standard deviation."""
    N = int(rng.integers(1, 9))
    chi = [0, 1, 3, -2, 2.5, -0.75, 1e-3, np.float32(1.5), np.int64(4), True, float(rng.normal())][rng.integers(11)]
    van = bool(rng.random() < 0.5)
    ctx.describe(N=N, chi=float(chi), vanishing=van)
    want = np.full((N, N), float(chi))
    if van:
        np.fill_diagonal(want, 0)
    it, prev = previous(rng, N)
    it.set_uniform_chis(chi, vanishing_diagonal=van)
    objs = [it, flory.FloryHugginsInteraction.from_uniform(N, chi, vanishing_diagonal=van), flory.FloryHuggins.from_uniform(N, chi, vanishing_diagonal=van)]
    for o in objs:
        ctx.ok(o.chis.shape == (N, N) and np.array_equal(o.chis, want), "uniform matrix", got=o.chis, expected=want)
    if van:
        ctx.ok(np.array_equal(flory.FloryHugginsInteraction.from_uniform(N, chi).chis, want), "uniform matrix with default diagonal")
        ctx.ok(np.array_equal(flory.FloryHuggins.from_uniform(N, chi).chis, want), "uniform matrix with default diagonal")
    p = rng.dirichlet(np.ones(N))
    fe = objs[2]
    ctx.close(fe.free_energy_density(p), np.sum(p * np.log(p)) + 0.5 * p @ want @ p, "energy with uniform interactions")
    # a change afterwards is not affected by the type of the number given
    m = float(rng.normal())
    g = np.random.default_rng(i)
    it.set_random_chis(m, 0.0, vanishing_diagonal=van, rng=g)
    ctx.close(it.chis, np.full((N, N), m) if not van else np.full((N, N), m) * (1 - np.eye(N)), "zero standard deviation", rtol=1e-6, atol=0)
    it.set_random_chis(m, 1.0, vanishing_diagonal=False, rng=g)
    ctx.ok((it.chis != np.rint(it.chis)).all(), "random entries are rounded", chi=it.chis)
    # other objects are not affected
    ctx.ok(np.array_equal(objs[1].chis, want) and np.array_equal(objs[2].chis, want), "another object was changed")
    ctx.obs("uniform")
    ctx.obs("previous:" + prev)
    ctx.nontrivial("uniform", N, float(chi), van, prev)


def fields(ctx, rng, i):
    """Fields of new and randomly reinitialised finders are independent normal numbers, and new ones each time."""
    mix = X.rand_mix(rng, wild=False, tail=0.0)
    M = int(rng.choice([1, 2, 7, 16, 40]))
    std = float(rng.choice([0.1, 1.0, 5.0, 30.0]))
    own = bool(rng.random() < 0.4)  # the finder creates its own generator
    seed = int(rng.integers(2**40))
    default = bool(rng.random() < 0.3)
    o = {**mix.options(), "num_part": M, "random_std": std}
    if default:
        o.pop("num_part")
        M = 8 * mix.N
    n = max(4, int((2000 if ctx.tier == "quick" else 20000) // (mix.S * M)))
    ctx.describe(mix=mix.describe(), std=std, own=own, seed=seed, compartments=M, samples=n)
    make = lambda: flory.CoexistingPhasesFinder(mix.interaction(), mix.entropy(), mix.ensemble(), mix.constraints() or None,
                                                rng=None if own else np.random.default_rng(seed), **o)
    f = make()
    g = np.random.default_rng(seed + 1)
    W = []
    for j in range(n):
        if j:
            k = int(g.integers(6))
            if k == 0:
                f.reinitialize_from_omegas(g.normal(0, 1, (mix.S, M)))
            elif k == 1 and j < 40:
                f.reinitialize_from_phis(g.uniform(0.1, 1, (mix.S, M)))
            elif k == 2 and j < 6:
                try:
                    f.run(max_steps=3, interval=3)
                except (ValueError, ArithmeticError) as e:
                    if not blown(e):
                        raise
            f.reinitialize_random()
        w = np.array(f.omegas)
        ctx.ok(w.shape == (mix.S, M) and np.isfinite(w).all(), "shape of the fields", got=w.shape, expected=(mix.S, M))
        W.append(w)
    W = np.array(W) / std
    ks(ctx, W.ravel(), "norm", "initial fields", std=std)
    pval(ctx, chi2p(W.ravel()), "standard deviation of the initial fields", std=std)
    ctx.ok(len(np.unique(W)) == W.size, "initial fields repeat", different=len(np.unique(W)), of=W.size)
    for name, A, ax in (("features", W, 1), ("compartments", W, 2), ("successive initialisations", W, 0)):
        A = np.moveaxis(A, ax, 0)
        if len(A) > 1:
            corr(ctx, A[:-1].ravel(), A[1:].ravel(), "fields of " + name)
        if len(A) > 1 and A[0].size > 30:
            s = A.sum(0) / np.sqrt(len(A))
            pval(ctx, chi2p(s.ravel()), "sums of fields over " + name)
            for a in A:
                pval(ctx, 2 * stats.norm.sf(abs(a.mean()) * np.sqrt(a.size)), "mean of the fields over " + name)
                pval(ctx, chi2p(a.ravel()), "standard deviation of the fields over " + name)
    ctx.obs("fields", n)
    ctx.obs("own_generator", own)
    ctx.obs("default_compartments", default)
    ctx.nontrivial("fields", mix.S, M, std, own)


def smallest(ctx, rng, i):
    """Every number of components, few samples."""
    N = i + 1 if i < 200 else int(rng.integers(200, 3000))
    p = flory.common.phases.get_uniform_random_composition(N, rng)
    ctx.describe(N=N)
    ctx.ok(p.shape == (N,) and np.isfinite(p).all() and p.min() >= -1e-14 and abs(p.sum() - 1) < 1e-12, "random composition", got=p)
    ctx.ok(p.min() >= 0, "negative fraction", got=p.min())
    it = flory.FloryHugginsInteraction.from_random_normal(min(N, 300), rng=rng, vanishing_diagonal=bool(i % 2))
    ctx.ok(np.array_equal(it.chis, it.chis.T) and np.all(np.diag(it.chis) == 0) == bool(i % 2), "random matrix")
    ctx.obs("sizes")
    ctx.nontrivial("sizes", N)


SUITES = [
    Suite("simplex", "jit", simplex, quick=100, thorough=800, shards=3, shards_thorough=8, need=["compositions", "tests", "how:generator", "how:seed", "how:none"]),
    Suite("seeds", "jit", seeds, quick=1000, thorough=10000, need=["seeds"]),
    Suite("matrices", "jit", matrices, quick=120, thorough=1200, shards=3, shards_thorough=8, need=["matrices", "van", "full", "mode:set", "mode:fe", "mode:defaults", "previous:int", "previous:setter"]),
    Suite("large", "jit", large, quick=60, thorough=600, shards=1, shards_thorough=4, need=["large_matrices"]),
    Suite("uniform", "jit", uniform, quick=1500, thorough=10000, need=["uniform"]),
    Suite("smallest", "jit", smallest, quick=300, thorough=1000, need=["sizes"]),
    Suite("fields", "py", fields, quick=400, thorough=4000, shards=2, shards_thorough=4, need=["fields", "own_generator", "default_compartments"]),
]
