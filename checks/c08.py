"""C08: phase collections keep volumes, material, order and extra information."""
import numpy as np

from lib import solve as Sv
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Random collections of phases (including well separated groups of nearly equal compositions, very unequal volumes, single phases, integer data, "
        "subclasses with information) undergo random chains of normalise, sort and cluster; each result is compared with its input by independent "
        "formulas. Non-trivial: every chain; distinct by sizes, operations, number of groups and class.")
ASSUMPTIONS = ["volumes are positive", "order is judged up to ties of fractions within one phase"]


def keys(F):
    """Component indices from most to least concentrated; None where fractions tie."""
    out = []
    for x in F:
        o = np.argsort(-x, kind="stable")
        d = -np.diff(x[o])
        tie = np.where(d <= 0)[0]
        out.append(tuple(int(c) for c in (o if len(tie) == 0 else o[: tie[0]])))
    return out


def ordered(ctx, F, what):
    ks = keys(F)
    for a, b in zip(ks, ks[1:]):
        n = min(len(a), len(b))
        ctx.ok(a[:n] <= b[:n], f"{what}: phases are not ordered by their most concentrated components", first=a, second=b)


def rows(V, F):
    return sorted(map(tuple, np.column_stack([np.asarray(V, float), np.asarray(F, float)]).tolist()))


def facts(ctx, ph):
    V, F = np.asarray(ph.volumes, float), np.asarray(ph.fractions, float)
    ctx.ok(ph.num_phases == len(V) and ph.num_components == F.shape[1], "sizes of the collection")
    ctx.close(ph.total_volume, V.sum(), "total volume", rtol=1e-12)
    mean = V @ F / V.sum()
    ctx.close(ph.mean_fractions, mean, "mean fractions", rtol=1e-11, atol=1e-13)
    return V, F, mean


def apply(ctx, ph, op, dist):
    """Apply an operation and compare with its input."""
    V0, F0, mean = facts(ctx, ph)
    raw = (ph.volumes, ph.fractions, np.array(ph.volumes), np.array(ph.fractions), getattr(ph, "info", None), dict(getattr(ph, "info", {}) or {}))
    q = ph.normalize() if op == "normalize" else ph.sort() if op == "sort" else (ph.get_clusters(dist) if dist else ph.get_clusters())
    ctx.ok(ph.volumes is raw[0] and ph.fractions is raw[1] and np.array_equal(ph.volumes, raw[2]) and np.array_equal(ph.fractions, raw[3]),
           f"{op} modified the original collection")
    ctx.ok(type(q) is type(ph), f"{op} changed the class", got=type(q).__name__)
    if hasattr(ph, "info"):
        ctx.ok(q.info == raw[5] and ph.info == raw[5], f"{op} lost the extra information", got=q.info, expected=raw[5])
        if q is not ph:  # derived collections have their own information
            q.info["added later"] = 1
            ctx.ok("added later" not in ph.info, f"{op}: adding information to the result changes the original")
            del q.info["added later"]
        ctx.obs("info_checked")
    V, F, m2 = facts(ctx, q)
    ctx.close(m2, mean, f"{op} changed the mean composition", rtol=1e-9, atol=1e-12)
    if op == "normalize":
        ctx.close(V.sum(), 1.0, "normalised volumes do not add up to one", rtol=1e-12)
        ctx.close(V, V0 / V0.sum(), "normalised volumes", rtol=1e-12)
        ctx.close(F, F0, "normalize changed compositions", rtol=0, atol=0)
    else:
        ctx.close(V.sum(), V0.sum(), f"{op} changed the total volume", rtol=1e-11)
        if len(V0) > 1 or op == "sort":
            ordered(ctx, F, op)
    if op == "sort":
        ctx.ok(rows(V, F) == rows(V0, F0), "sort is not a permutation")
    if op == "cluster":
        ctx.ok(len(V) <= len(V0) and np.all(V > 0), "clustering made phases up", got=len(V))
    return q


def random_collection(rng):
    """Returns volumes, fractions, groups (or None), dist."""
    N = int(rng.integers(1, 7))
    P = int(rng.integers(1, 40))
    kind = int(rng.integers(4))
    if kind == 0:  # anything
        F = rng.dirichlet(np.ones(N), size=P)
        if rng.random() < 0.3:
            F = np.round(F, 1)
        V = 10 ** rng.uniform(-6, 3, P)
        return V, F, None, float(10 ** rng.uniform(-3, 0.3))
    if kind == 1:  # integers
        F = rng.integers(0, 3, (P, N))
        return rng.integers(1, 9, P), F, None, None
    dist = float(rng.choice([1e-3, 1e-2, 5e-2, 0.2]))
    K = int(rng.integers(1, 6))
    if rng.random() < 0.1:  # many phases and many groups
        K, P, N = int(rng.integers(6, 40)), int(rng.integers(40, 200)), int(rng.integers(3, 12))
        dist = min(dist, 1e-2)
    centers = [rng.dirichlet(np.ones(N))]
    for _ in range(200):
        c, gap = rng.dirichlet(np.ones(N)), 2.5
        if kind == 2 and rng.random() < 0.5:  # just farther apart than the cut-off
            gap, d = 1.02, rng.normal(size=N) * (rng.random(N) < 0.7)
            d -= d.mean()
            c = centers[rng.integers(len(centers))] + d / max(np.linalg.norm(d), 1e-9) * dist * rng.uniform(1.03, 1.6)
        if len(centers) < K and c.min() >= 0 and all(np.linalg.norm(c - x) > gap * dist for x in centers):
            centers.append(c)
    K = len(centers)
    P = max(P, K)
    g = np.concatenate([np.arange(K), rng.integers(0, K, P - K)])
    rng.shuffle(g)
    noise = rng.normal(size=(P, N))
    nn = np.linalg.norm(noise, axis=1, keepdims=True)
    noise *= rng.uniform(0, 0.15, (P, 1)) * dist / np.where(nn > 0, nn, 1)
    if kind == 2:
        noise[:] = 0
        if rng.random() < 0.3:  # two different compositions just closer than the cut-off
            d = rng.normal(size=N)
            d -= d.mean()
            other = centers[0] + d / max(np.linalg.norm(d), 1e-9) * dist * rng.uniform(0.5, 0.97)
            g, P = np.zeros(int(rng.integers(2, 9)), int), 0
            return 10 ** rng.uniform(-4, 2, len(g)), np.abs(np.array([other, centers[0]]))[rng.integers(0, 2, len(g))], g, dist
    F = np.abs(np.array(centers)[g] + noise)
    V = 10 ** rng.uniform(-4, 2, P)
    return V, F, g, dist


def chains(ctx, rng, i):
    V, F, groups, dist = random_collection(rng)
    cls = int(rng.integers(3))
    if cls == 0:
        ph = flory.Phases(V, F)
    else:
        from flory.common.phases import PhasesResult

        class Mine(PhasesResult):
            pass

        info = {"steps": 3, "nested": {"a": [1, 2]}, "x": 0.5} if rng.random() < 0.8 else {}
        C = PhasesResult if cls == 1 else Mine
        ph = C(V, F, info=info) if rng.random() < 0.5 else C.from_phases(flory.Phases(V, F), info=info)
    ops = [str(o) for o in rng.choice(["normalize", "sort", "cluster"], int(rng.integers(1, 5)))]
    ctx.describe(volumes=V, fractions=F, dist=dist, ops=ops)
    q = ph
    for op in ops:
        q = apply(ctx, q, op, dist)
    if groups is not None:
        c = apply(ctx, ph, "cluster", dist)
        Vc, Fc = np.asarray(c.volumes), np.asarray(c.fractions)
        K = groups.max() + 1
        if len(V) == 1:
            K = 1
        ctx.ok(len(Vc) == K, "number of clusters", got=len(Vc), expected=K)
        used = set()
        for k in range(K):
            sel = groups == k
            v, x = V[sel].sum(), V[sel] @ F[sel] / V[sel].sum()
            d = np.abs(Fc - x).max(1)
            j = int(np.argmin(d))
            ctx.ok(d[j] < 1e-9 and j not in used, "no cluster has the mean composition of a group", distance=d[j])
            used.add(j)
            ctx.close(Vc[j], v, "volume of a cluster", rtol=1e-9)
        # repeated clustering changes nothing
        c2 = c.get_clusters(dist)
        ctx.close(np.array(rows(c2.volumes, c2.fractions)), np.array(rows(Vc, Fc)), "clustering again changes the clusters", rtol=1e-12)
        ctx.obs("groups", K)
        ctx.obs("many_groups", K > 20)
        if K < len(V):
            ctx.obs("merged")
    ctx.obs("chains")
    ctx.nontrivial(len(V), F.shape[1], cls, tuple(ops), None if groups is None else int(groups.max()))


def order(ctx, rng, i):
    """Ordering with many components and decisive later places."""
    N, P = int(rng.integers(2, 7)), int(rng.integers(2, 25))
    base = np.sort(rng.dirichlet(np.ones(N)))[::-1]
    perms = [rng.permutation(N) for _ in range(int(rng.integers(1, 5)))]
    F = np.zeros((P, N))
    for r in range(P):
        perm = perms[rng.integers(len(perms))].copy()
        if rng.random() < 0.5 and N > 2:  # differ in a later place only
            a = rng.integers(1, N - 1)
            perm[[a, a + 1]] = perm[[a + 1, a]]
        F[r, perm] = base
    V = rng.uniform(0.1, 1, P)
    ctx.describe(fractions=F)
    q = apply(ctx, flory.Phases(V, F), "sort", None)
    apply(ctx, q, "sort", None)
    ctx.obs("orders")
    ctx.nontrivial("order", N, P, len(perms))


def found(ctx, rng, i):
    """Phases returned by the finder."""
    mix = Sv.solvable(rng, "can", False)
    f, ph, conv = Sv.run(mix, int(rng.integers(1 << 30)), 1e-3, max_steps=1500, interval=50)
    if ph is None:
        return
    ctx.describe(mix=mix.describe())
    for op in ("cluster", "sort", "normalize"):
        apply(ctx, ph, op, None)
    q = ph
    for op in ("cluster", "sort", "normalize"):
        q = apply(ctx, q, op, None)
    ctx.obs("found")
    ctx.nontrivial("found", mix.signature(), q.num_phases)


SUITES = [
    Suite("chains", "py", chains, quick=6000, thorough=100000, shards=4, shards_thorough=8, need=["chains", "groups", "merged", "many_groups", "info_checked"]),
    Suite("order", "py", order, quick=3000, thorough=40000, shards=2, shards_thorough=8, need=["orders"]),
    Suite("found", "py", found, quick=60, thorough=1000, shards=2, shards_thorough=8, need=["found"]),
]
