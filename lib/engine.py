"""Runner shared by all checks.

A check is a module in /verif/checks with a list SUITES.  Each suite runs many
deterministic cases (case i of suite s under seed S is always the same case) in worker
processes, in one of three lanes:

  py   NUMBA_DISABLE_JIT=1   the library source interpreted by CPython: Python spies can be
                             plugged in through the ingredient protocol
  jit  machine code as a user runs it
  bc   machine code with NUMBA_BOUNDSCHECK=1 (out-of-bounds access raises)

A case calls ctx.ok(...) for each decided oracle; the first failing oracle of a case is a
violation.  A worker that dies from SIGSEGV & co. while executing a case is a violation,
too.  Watchdog timeouts and harness errors are inconclusive (exit 3), never a pass.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = Path(os.environ.get("VERIF_EVIDENCE", ROOT / "evidence"))
LANES = {
    "py": {"NUMBA_DISABLE_JIT": "1"},
    "jit": {},
    "bc": {"NUMBA_BOUNDSCHECK": "1"},
}
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


class Violation(Exception):
    """An oracle failed."""


class Suite:
    """A family of cases.

    fn(ctx, rng, i) runs case i; quick/thorough are numbers of cases; shards is the number
    of worker processes (case i goes to worker i % shards); need lists counters that must
    be non-zero for the run to be conclusive.
    """

    def __init__(self, name, lane, fn, quick, thorough=None, shards=1, shards_thorough=None,
                 need=(), hang_is_violation=False, final=None):
        self.name, self.lane, self.fn = name, lane, fn
        self.quick, self.thorough = quick, thorough or quick * 8
        self.shards, self.need = shards, tuple(need)
        self.shards_thorough = shards_thorough or shards
        self.hang_is_violation = hang_is_violation
        self.final = final  # final(ctx): oracle over what the shard accumulated

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def nshards(self, tier):
        return self.shards if tier == "quick" else self.shards_thorough


class Ctx:
    """What a case uses to report."""

    def __init__(self, prop, suite, seed, tier):
        self.prop, self.suite, self.seed, self.tier = prop, suite, seed, tier
        self.counters = {}
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.store = {}  # free for suites (e.g. accumulated statistics)
        self.case = None
        self.desc = {}
        self.oracles = 0

    def describe(self, **kw):
        """Describe the current case (goes to the replay file and samples)."""
        self.desc.update({k: jsonable(v) for k, v in kw.items()})

    def obs(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def peak(self, name, value):
        value = float(value)
        if value == value and value > self.maxima.get(name, -1e300):
            self.maxima[name] = value

    def nontrivial(self, *sig):
        h = hashlib.blake2b(repr((self.suite, sig)).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def ok(self, cond, what, **details):
        """Decide one oracle."""
        self.oracles += 1
        if not bool(cond):
            self.fail(what, **details)

    def fail(self, what, **details):
        raise Violation(what, {k: jsonable(v) for k, v in details.items()})

    def close(self, a, b, what, rtol=1e-9, atol=1e-11, **details):
        """Decide that two arrays agree (NaN never agrees; equal infinities do)."""
        import numpy as np

        a, b = np.asarray(a, float), np.asarray(b, float)
        self.oracles += 1
        if a.shape != b.shape:
            self.fail(what + " (shape)", got=a.shape, expected=b.shape, **details)
        with np.errstate(all="ignore"):
            good = (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b)
        if not np.all(good):
            bad = np.argwhere(~good)
            j = tuple(bad[0])
            self.fail(what, got=a[j], expected=b[j], index=list(map(int, j)), nbad=len(bad), **details)

    def raises(self, exc, func, what, **details):
        self.oracles += 1
        try:
            func()
        except exc as e:
            return e
        except Exception as e:
            self.fail(what + f" (raised {type(e).__name__} instead of an accepted error)", error=str(e), **details)
        self.fail(what + " (nothing raised)", **details)


def jsonable(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 400 else {"shape": list(v.shape), "head": v.ravel()[:40].tolist()}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def load_check(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def case_rng(prop, suite, seed, i):
    import numpy as np

    h = hashlib.blake2b(f"{prop}/{suite}".encode(), digest_size=8).digest()
    return np.random.default_rng([int(seed) & 0x7FFFFFFF, int.from_bytes(h, "little"), int(i)])


def blame(tb):
    """Where did an exception come from: 'repo', or 'harness'."""
    last = "harness"
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/"):
            last = "repo"
        elif fr.filename.startswith(str(ROOT) + "/"):
            last = "harness"
    return last


# ------------------------------------------------------------------------------ worker


def worker(spec):
    prop, sname, seed, tier = spec["prop"], spec["suite"], spec["seed"], spec["tier"]
    sys.path.insert(0, REPO)
    import logging
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    mod = load_check(prop)
    import flory

    from .blown import blown

    if not os.path.realpath(flory.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise SystemExit(f"flory imported from {flory.__file__}, expected {REPO}")
    suite = next(s for s in mod.SUITES if s.name == sname)
    ctx = Ctx(prop, sname, seed, tier)
    ctx.shard = spec["shard"]
    out = {"violations": [], "errors": [], "cases": 0, "ran_out": False}
    deadline = spec["deadline"]
    status = open(spec["status"], "w")

    def handle(i, func):
        try:
            func()
            return True
        except Violation as v:
            out["violations"].append({"case": i, "what": v.args[0], "details": v.args[1], "desc": ctx.desc})
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.format_exc()[-4000:]
            where = blame(e.__traceback__)
            if where == "repo" and blown(e):
                ctx.obs("diverged")
            elif where == "repo":
                out["violations"].append({"case": i, "what": f"the library raised {type(e).__name__} on valid input: {e}"[:500],
                                          "details": {"traceback": tb}, "desc": ctx.desc})
            elif isinstance(e, (ValueError, IndexError, KeyError, ArithmeticError, TypeError, AttributeError, np.linalg.LinAlgError)):
                out["violations"].append({"case": i, "what": f"malformed result, the oracle failed with {type(e).__name__}: {e}"[:500],
                                          "details": {"traceback": tb}, "desc": ctx.desc})
            else:
                out["errors"].append({"case": i, "error": tb, "desc": ctx.desc})
        return False

    for i in spec["cases"]:
        if time.time() > deadline:
            out["ran_out"] = True
            break
        status.seek(0)
        status.write(f"{i:>12}\n")
        status.flush()
        ctx.case, ctx.desc = i, {}
        before = ctx.oracles
        good = handle(i, lambda: suite.fn(ctx, case_rng(prop, sname, seed, i), i))
        out["cases"] += 1
        if good and ctx.oracles > before and len(ctx.samples) < 2 and ctx.desc:
            ctx.samples.append({"suite": sname, "case": i, **ctx.desc})
        if len(out["violations"]) >= 3 or len(out["errors"]) >= 3:
            break
    if suite.final and not out["violations"] and not out["errors"]:
        ctx.case, ctx.desc = -1, {}
        handle(-1, lambda: suite.final(ctx))
    out.update(counters=ctx.counters, maxima=ctx.maxima, sigs=sorted(ctx.sigs), samples=ctx.samples, oracles=ctx.oracles)
    Path(spec["out"]).write_text(json.dumps(out))


# -------------------------------------------------------------------------------- main


def main(prop, tier=None, only=None, quiet=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import shutil
    import tempfile

    mod = load_check(prop)
    soft = getattr(mod, "SOFT", {"quick": 300, "thorough": 2400})[tier]
    hard = getattr(mod, "HARD", {"quick": 700, "thorough": 5400})[tier]
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    jobs = []
    for suite in mod.SUITES:
        if only and suite.name not in only:
            continue
        n, k = suite.count(tier), min(suite.nshards(tier), suite.count(tier))
        for sh in range(k):
            jobs.append((suite, sh, list(range(sh, n, k))))
    # compiled lanes first: they need the longest
    jobs.sort(key=lambda j: j[0].lane == "py")
    maxproc = int(os.environ.get("VERIF_PROCS", os.cpu_count() or 8))
    running, results, problems = [], [], []
    env0 = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "PYTHONHASHSEED": "0",
            "MPLBACKEND": "agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "1", "VERIF_REPO": REPO, "VERIF_WORKER": "1"}
    env0.pop("PYTHONPATH", None)
    for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK"):
        env0.pop(k, None)
    try:
        todo = list(enumerate(jobs))
        while todo or running:
            while todo and len(running) < maxproc:
                j, (suite, sh, cases) = todo.pop(0)
                spec = {"prop": prop, "suite": suite.name, "seed": seed, "tier": tier, "shard": sh, "cases": cases,
                        "deadline": t0 + soft, "status": str(scratch / f"{j}.status"), "out": str(scratch / f"{j}.json")}
                sp = scratch / f"{j}.spec"
                sp.write_text(json.dumps(spec))
                err = open(scratch / f"{j}.err", "w+")
                proc = subprocess.Popen([sys.executable, str(ROOT / "run.py"), "--worker", str(sp)], cwd=scratch,
                                        env={**env0, **LANES[suite.lane]}, stdout=err, stderr=err, stdin=subprocess.DEVNULL)
                running.append((proc, suite, spec, err))
            time.sleep(0.05)
            for item in running[:]:
                proc, suite, spec, err = item
                rc = proc.poll()
                if rc is None:
                    if time.time() - t0 > hard:
                        proc.kill()
                        proc.wait()
                        rc = "timeout"
                    else:
                        continue
                running.remove(item)
                try:
                    at = int(Path(spec["status"]).read_text().split()[0])
                except Exception:
                    at = None
                if rc == 0 and os.path.exists(spec["out"]):
                    res = json.loads(Path(spec["out"]).read_text())
                    results.append((suite, res))
                    for e in res["errors"]:
                        problems.append(f"{suite.name} case {e['case']}: {e['error']}")
                elif rc == "timeout":
                    if suite.hang_is_violation and at is not None:
                        results.append((suite, crash(at, f"no answer within {hard} s: the case did not terminate")))
                    else:
                        problems.append(f"{suite.name}: watchdog after {hard} s in case {at}")
                elif isinstance(rc, int) and rc < 0 and -rc in CRASH_SIGNALS and at is not None:
                    results.append((suite, crash(at, f"the interpreter died with {signal.Signals(-rc).name}")))
                else:
                    err.seek(0)
                    text = err.read()[-3000:]
                    if rc == 1 and at is None and f'File "{REPO}/' in text.split("Traceback")[-1] and "ImportError" not in text:
                        problems.append(f"{suite.name}: the library cannot be imported: {text}")
                    else:
                        problems.append(f"{suite.name}: worker ended with {rc} in case {at}: {text}")
                err.close()
    finally:
        for proc, *_ in running:
            proc.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    counters, maxima, sigs, samples, evaluations, oracles, viols = {}, {}, set(), [], 0, 0, []
    per_suite, ran_out = {}, []
    for suite, res in results:
        evaluations += res["cases"]
        oracles += res["oracles"]
        d = per_suite.setdefault(suite.name, {"lane": suite.lane, "cases": 0, "oracles": 0})
        d["cases"] += res["cases"]
        d["oracles"] += res["oracles"]
        for k, v in res["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in res["maxima"].items():
            maxima[k] = max(maxima.get(k, -1e300), v)
        sigs.update(res["sigs"])
        if sum(s.get("suite") == suite.name for s in samples) < 2:
            samples += res["samples"][:1]
        if res["ran_out"]:
            ran_out.append(suite.name)
        viols += [(suite, v) for v in res["violations"]]
    if not viols and not only:
        for suite in mod.SUITES:
            for key in suite.need:
                if not counters.get(key):
                    problems.append(f"{suite.name}: the monitor never observed '{key}'")
            if suite.name not in per_suite:
                problems.append(f"{suite.name}: no case was run")
    EVID.mkdir(parents=True, exist_ok=True)
    (EVID / "replays").mkdir(exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                     "samples": samples[:6], "oracles_decided": oracles, "observed": counters,
                     "largest_deviation_seen": maxima, "suites": per_suite, "stopped_by_time": sorted(set(ran_out))},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    (EVID / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    seen = set()
    for suite, v in viols:
        key = (suite.name, v["what"][:60])
        if key in seen:
            continue
        seen.add(key)
        path = EVID / "replays" / f"{prop}-{suite.name}-{v['case']}.json"
        path.write_text(json.dumps({"property": prop, "suite": suite.name, "lane": suite.lane, "seed": seed, "tier": tier,
                                    "cmd": f"{sys.executable} {ROOT}/run.py --replay {path}", **v}, indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{suite.name}#{v['case']}] {v['what']} {json.dumps(v['details'])[:600]}")
    for pr in problems[:4]:
        print(f"INCONCLUSIVE property={prop} {pr}")
    if not quiet:
        print(f"{prop} {tier} seed={seed}: {evaluations} cases, {oracles} oracles, {len(sigs)} distinct non-trivial, "
              f"{len(viols)} violations, {len(problems)} problems, {time.time() - t0:.1f} s")
        print("observed:", json.dumps(counters))
        print("peaks:", json.dumps({k: float(f"{v:.3g}") for k, v in maxima.items()}))
    return 1 if viols else (3 if problems else 0)


def crash(at, text):
    return {"cases": 1, "oracles": 1, "counters": {}, "maxima": {}, "sigs": [], "samples": [], "ran_out": False, "errors": [],
            "violations": [{"case": at, "what": text, "details": {}, "desc": {}}]}


def replay(path):
    rec = json.loads(Path(path).read_text())
    env = {**os.environ, **LANES[rec["lane"]], "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    out = Path(path).with_suffix(".out")
    cases = [rec["case"]]
    suite = next(s for s in load_check(rec["property"]).SUITES if s.name == rec["suite"])
    shard = max(0, rec["case"]) % min(suite.nshards(rec["tier"]), suite.count(rec["tier"]))
    if rec["case"] < 0:
        cases = list(range(suite.count(rec["tier"])))
    spec = {"prop": rec["property"], "suite": rec["suite"], "seed": rec["seed"], "tier": rec["tier"], "shard": shard, "cases": cases,
            "deadline": time.time() + 3600, "status": str(out) + ".status", "out": str(out)}
    sp = Path(str(out) + ".spec")
    sp.write_text(json.dumps(spec))
    rc = subprocess.run([sys.executable, str(ROOT / "run.py"), "--worker", str(sp)], env=env).returncode
    if rc == 0:
        res = json.loads(out.read_text())
        print(json.dumps(res["violations"] or res["errors"] or "the case holds now", indent=1))
        rc = 1 if res["violations"] else 0
    else:
        print("worker ended with", rc)
    for p in (sp, out, Path(str(out) + ".status")):
        if p.exists():
            p.unlink()
    return rc
