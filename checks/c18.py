"""C18: found phases match independently computed phase diagrams."""
import numpy as np

from checks.c08 import ordered
from lib import mix as X
from lib.binodal import Binary, symmetric
from lib.engine import Suite
from lib.lazy import flory

RULE = ("Machine-code runs of the shortcut and of finders on binary mixtures with sizes between 0.5 and 15, with diagonal and asymmetric parts in chi, "
        "labels exchanged, and on symmetric mixtures of 2 to 6 components; each converged result is compared with binodals computed by common-tangent "
        "construction, the lever rule and barycentric volumes. Non-trivial: the mixture demixes or is provably miscible and the run converged; "
        "distinct by kind, sizes, distance from the critical point, mean composition.")
ASSUMPTIONS = ["mean compositions between binodal and spinodal are not judged: a metastable single phase is a legitimate fixed point",
               "chi at least 15 % away from critical values and phases at least 0.1 apart",
               "symmetric mixtures with chi*size >= 1.3 N + 0.5 and volumes of at least 0.4/N, at least 6 N compartments"]
FAST = dict(acceptance_Js=0.002, acceptance_omega=0.02, Js_step_upper_bound=0.01)


def options(rng, M=None, fast=None):
    kw = dict(rng=int(rng.integers(2**31)), tolerance=float(rng.choice([1e-5, 1e-6, 1e-7])), interval=int(rng.choice([200, 1000, 3000])),
              max_steps=int(rng.choice([120000, 150000])), random_std=float(rng.choice([1.0, 2.0, 5.0])), progress=False)
    if M:
        kw["num_part"] = M
    if rng.random() < 0.85 if fast is None else fast:
        kw.update(FAST)
        if rng.random() < 0.3:
            kw["additional_chis_shift"] = float(rng.choice([0.5, 2.0]))
        if rng.random() < 0.2:
            kw["max_revive_per_compartment"] = int(rng.choice([0, 2, 40]))
    return kw


def explicit(N, chi, phi, sizes, kw):
    """The same by hand."""
    kw = {**kw, "rng": np.random.default_rng(kw["rng"])}
    fe = flory.FloryHuggins(N, chi, sizes)
    f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(N, phi), **kw)
    ph = f.run()
    return f, ph


def shortcut(N, chi, phi, sizes, kw):
    kw = {**kw, "rng": np.random.default_rng(kw["rng"])}
    return flory.find_coexisting_phases(N, chi, phi, sizes, **kw) if sizes is not None else flory.find_coexisting_phases(N, chi, phi, **kw)


def converged(kw, info):
    # the budgets used here are multiples of the interval
    return info["steps"] <= kw["max_steps"] - kw["interval"]


def shape(ctx, r, phi, kw):
    """What every result of the shortcut looks like. Returns whether the run converged."""
    V, F = np.asarray(r.volumes), np.asarray(r.fractions)
    ctx.ok(isinstance(r, flory.common.phases.PhasesResult), "class of the result")
    ctx.close(V.sum(), 1.0, "volumes of the phases do not add up to one", rtol=1e-10)
    ctx.ok(np.all(V > 0) and np.all(F >= 0) and np.isfinite(F).all(), "phases with negative volumes or fractions")
    ctx.close(V @ F, phi, "the phases do not have the prescribed mean composition", rtol=0, atol=1e-6 + 100 * kw["tolerance"])
    ordered(ctx, F, "shortcut")
    info = r.info
    for k in ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
        ctx.ok(any(k == q.lower() for q in info), "missing diagnostics", key=k, info=list(info))
    ctx.obs("results")
    if not converged(kw, info):
        ctx.obs("unconverged")
        return False
    for k, v in info.items():
        if k.startswith("max_abs"):
            ctx.ok(v < kw["tolerance"], "the run stopped although a residual is above the tolerance", key=k, value=v)
    ctx.obs("converged")
    return True




def binary(ctx, rng, i):
    l = rng.choice([1, 1, 2, 3, 5, 10], 2) * rng.uniform(0.5, 1.5, 2)
    if rng.random() < 0.3:
        l = np.full(2, l[0])
    if rng.random() < 0.2:
        l = np.ones(2)
    crit = Binary(1, *l).critical
    kind = str(rng.choice(["unstable", "unstable", "unstable", "miscible", "outside", "metastable"]))
    chi = crit * (rng.uniform(1.15, 2.6) if kind != "miscible" else rng.choice([rng.uniform(-2, 0.85), 0.0, rng.uniform(0.5, 0.85)]))
    B = Binary(chi, *l)
    sp, bi = B.spinodal(), B.binodal()
    if kind == "miscible":
        m = float(rng.uniform(0.02, 0.98))
    elif kind == "unstable":
        m = sp[0] + (sp[1] - sp[0]) * rng.uniform(0.05, 0.95)
    elif kind == "outside":
        m = bi[0] * rng.uniform(0.2, 0.9) if rng.random() < 0.5 else 1 - (1 - bi[1]) * rng.uniform(0.2, 0.9)
    else:
        m = bi[0] + (sp[0] - bi[0]) * rng.uniform(0.1, 0.9) if rng.random() < 0.5 else bi[1] + (sp[1] - bi[1]) * rng.uniform(0.1, 0.9)
    # matrix with the same effective interaction
    a, b = (0.0, 0.0) if rng.random() < 0.5 else rng.normal(0, 0.5, 2)
    c = chi + 0.5 * (a + b)
    mat = np.array([[a, c], [c, b]])
    if rng.random() < 0.2:
        d = rng.normal()
        mat += np.array([[0, d], [-d, 0]])  # asymmetric: symmetrised by the library
    phi = np.array([m, 1 - m])
    M = [None, 4, 6, 8, 12, 16, 16, 24][rng.integers(8)]
    kw = options(rng, M)
    sizes = l if not np.all(l == 1) or rng.random() < 0.5 else None
    ctx.describe(kind=kind, sizes=l, chi=mat, phi=phi, binodal=bi, spinodal=sp, **kw)
    r = shortcut(2, mat, phi, sizes, kw)
    conv = shape(ctx, r, phi, kw)
    if kind != "metastable":
        ctx.store["runs"] = ctx.store.get("runs", 0) + 1
        ctx.store["conv"] = ctx.store.get("conv", 0) + conv
    if not conv:
        return
    F, V = np.asarray(r.fractions), np.asarray(r.volumes)
    tol = kw["tolerance"]
    ctx.ok(np.abs(F.sum(1) - 1).max() < 3 * tol, "fractions of a phase do not add up to one", F=F)
    two = len(V) == 2
    if kind in ("miscible", "outside"):
        ctx.ok(len(V) == 1, "several phases although demixing is impossible", F=F, V=V)
        ctx.close(F[0], phi, "the single phase has another composition", rtol=0, atol=1e-8 + 50 * tol)
        ctx.obs(kind)
    elif kind == "unstable" or two:
        ctx.ok(two, "the unstable mixture has not been separated into two phases", F=F, V=V)
        o = np.argsort(F[:, 0])
        x, v = F[o, 0], V[o]
        w = bi[1] - bi[0]
        ca, cb = B.curv(bi[0]), B.curv(bi[1])
        da, db = 12 * tol / (ca * w) + 5 * tol, 12 * tol / (cb * w) + 5 * tol
        if max(da, db) > 0.02:
            ctx.obs("imprecise")
            return
        ctx.ok(abs(x[0] - bi[0]) < da and abs(x[1] - bi[1]) < db, "phases are not the binodal compositions", got=x, expected=bi, allowed=[da, db])
        va = (bi[1] - m) / w
        ctx.ok(np.abs(v - [va, 1 - va]).max() < 3 * (da + db) / w + 1e-7, "volumes do not follow the lever rule", got=v, expected=[va, 1 - va])
        ctx.obs("demixed")
        ctx.peak("binodal error / allowed", max(abs(x[0] - bi[0]) / da, abs(x[1] - bi[1]) / db))
    else:
        ctx.close(F[0], phi, "the single phase has another composition", rtol=0, atol=1e-8 + 50 * tol)
        ctx.obs("metastable")
    ctx.nontrivial(kind, np.round(l, 1), round(chi / crit, 1), round(m, 1), two)


def rate(ctx):
    """Mixtures that are easy have to be solved within the generous budget."""
    n = ctx.store.get("runs", 0)
    if n >= 20:
        frac = ctx.store.get("conv", 0) / n
        ctx.peak("unconverged fraction", 1 - frac)
        ctx.ok(frac > 0.6, "most runs do not find phases within the budget of steps", fraction=frac, runs=n)


def symm(ctx, rng, i):
    N = int(rng.integers(2, 7))
    l = float(rng.choice([1, 0.7, 1.5, 2, 3]))
    chi = (rng.uniform(1.3, 2.5) * N + 0.5) / l
    x, y = symmetric(N, chi, l)
    v = 0.4 / N + 0.6 * rng.dirichlet(np.ones(N)) if rng.random() < 0.7 else np.full(N, 1 / N)
    phi = y + (x - y) * v
    kw = options(rng, None if rng.random() < 0.7 else int(rng.integers(6, 12)) * N)
    kw["random_std"] = float(rng.choice([2.0, 5.0]))
    mat = chi * (1 - np.eye(N)) + float(rng.choice([0.0, 0.0, -1.0, 0.7]))
    ctx.describe(N=N, size=l, chi=chi, volumes=v, offset=mat[0, 0], **kw)
    sizes = np.full(N, l) if l != 1 else None
    if l != 1 and rng.random() < 0.3:
        sizes = l
    r = shortcut(N, mat, phi, sizes, kw)
    conv = shape(ctx, r, phi, kw)
    ctx.store["runs"] = ctx.store.get("runs", 0) + 1
    ctx.store["conv"] = ctx.store.get("conv", 0) + conv
    if not conv:
        return
    F, V = np.asarray(r.fractions), np.asarray(r.volumes)
    tol = kw["tolerance"]
    ctx.ok(len(V) == N, "not one phase per component", F=F, V=V)
    ref = y + (x - y) * np.eye(N)
    h = 1 / (l * x) + 1 / (l * y) - 2 * chi
    d = 20 * tol / min(h, 1.0) + 1e-9
    if d > 0.02:
        ctx.obs("imprecise")
        return
    ctx.ok(np.abs(F - ref).max() < d, "compositions of the symmetric mixture", got=F, expected=ref, allowed=d)
    ctx.ok(np.abs(V - v).max() < 5 * d, "volumes of the symmetric mixture", got=V, expected=v, allowed=5 * d)
    ctx.peak("symmetric error / allowed", np.abs(F - ref).max() / d)
    ctx.obs("symmetric")
    ctx.nontrivial("symmetric", N, l, round(chi, 1), np.round(v, 1))


def pipeline(ctx, rng, i):
    """The shortcut does what the explicit pipeline does, whatever the mixture and the options."""
    N = int(rng.integers(1, 6))
    chi, phi = X.rand_chi(rng, N), X.rand_simplex(rng, N, 0.01)
    sizes = [None, X.rand_sizes(rng, N), float(rng.uniform(0.5, 2))][rng.integers(3)]
    kw = options(rng, [None, int(rng.integers(1, 20))][rng.integers(2)])
    kw.update(max_steps=int(rng.choice([1, 50, 300, 3000])), interval=int(rng.choice([1, 40, 100, 10000])), kill_threshold=float(rng.choice([0.0, 0.1])),
              random_std=float(rng.choice([0.5, 2.0])), revive_scaler=float(rng.choice([1.0, 0.5])))
    if rng.random() < 0.02:  # budgets and intervals beyond the default ones, used up
        N = min(N, 2)
        chi, phi = X.rand_chi(rng, N), X.rand_simplex(rng, N, 0.01)
        sizes = None
        kw.update(num_part=int(rng.integers(1, 3)), tolerance=1e-300, max_steps=int(rng.choice([250000, 410000, 1050000])), interval=int(rng.choice([50000, 110000])))
        if rng.random() < 0.5:  # the documented default is a million steps
            del kw["max_steps"]
            ctx.obs("default_budgets")
        ctx.obs("long_runs")
    brink = rng.random() < 0.2
    if brink:  # one step that leaves a compartment with a tiny volume
        kw.update(num_part=int(rng.integers(2, 8)), max_steps=1, acceptance_Js=1e6, Js_step_upper_bound=float(1 - 10 ** rng.uniform(-9, -2)), kill_threshold=0.0)
    for k in list(kw) if not brink else []:  # options left at their defaults
        if k not in ("rng", "progress", "max_steps", "num_part", "tolerance") and rng.random() < 0.1:
            del kw[k]
    ctx.describe(N=N, chi=chi, phi=phi, sizes=sizes, **kw)
    f, ph = explicit(N, chi, phi, sizes, kw)
    if not np.isfinite(ph.fractions).all():
        ctx.obs("diverged")
        return
    r = shortcut(N, chi, phi, sizes, kw)
    q = ph.get_clusters().sort().normalize()
    ctx.close(r.volumes, q.volumes, "shortcut and pipeline give different volumes", rtol=1e-9, atol=1e-12)
    ctx.close(r.fractions, q.fractions, "shortcut and pipeline give different compositions", rtol=1e-9, atol=1e-12)
    d = f.diagnostics
    if "max_steps" not in kw and d["steps"] > 200000:
        ctx.ok(d["steps"] == 1_000_000 or d["max_abs_js_diff"] == 0, "the default step limit is not a million", steps=d["steps"])
    ctx.ok(set(r.info) == set(d), "diagnostics of the shortcut", got=sorted(r.info), expected=sorted(d))
    for k in set(d) - {"time"}:
        ctx.ok(np.array_equal(np.asarray(d[k]), np.asarray(r.info[k]), equal_nan=True) if np.asarray(d[k]).dtype.kind in "fiub" else True, "diagnostics of the shortcut", key=k, got=r.info[k], expected=d[k])
    # independent look at the clustering: known total, mean, order; equal compositions merged, distant ones kept apart
    ctx.close(np.sum(r.volumes), 1, "volumes do not add up to one", rtol=1e-10)
    ordered(ctx, np.asarray(r.fractions), "shortcut")
    P, W = np.asarray(ph.fractions), np.asarray(ph.volumes) / np.sum(ph.volumes)
    ctx.close(r.volumes @ r.fractions, W @ P, "mean composition", rtol=1e-9, atol=1e-12)
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    if len(P) > 1 and not np.any((D > 2e-4) & (D < 5e-2)):  # unambiguous groups
        reps = []
        for a in range(len(P)):
            if all(D[a, b] > 1e-2 for b in reps):
                reps.append(a)
        ctx.ok(len(r.volumes) == len(reps), "number of phases of the shortcut", got=len(r.volumes), expected=len(reps))
        ctx.obs("groups")
    # the result is a snapshot
    keep = (np.array(r.volumes), np.array(r.fractions), dict(r.info))
    f.run()
    ctx.ok(np.array_equal(keep[0], r.volumes) and np.array_equal(keep[1], r.fractions) and keep[2].keys() == r.info.keys(), "the result changed afterwards")
    ctx.obs("pipelines")
    ctx.obs("tiny_phases", int((keep[0] < 1e-4).any()))
    ctx.nontrivial("pipeline", N, kw.get("num_part"), kw.get("max_steps"), len(r.volumes), type(sizes).__name__)


SUITES = [
    Suite("binary", "jit", binary, quick=700, thorough=12000, shards=4, shards_thorough=6, final=rate, need=["demixed", "miscible", "outside", "converged"]),
    Suite("symmetric", "jit", symm, quick=400, thorough=6000, shards=2, shards_thorough=4, final=rate, need=["symmetric"]),
    Suite("pipeline", "jit", pipeline, quick=600, thorough=6000, shards=2, shards_thorough=4, need=["pipelines", "groups", "long_runs", "default_budgets", "tiny_phases"]),
]
