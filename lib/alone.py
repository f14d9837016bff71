"""The same computation in a process in which nothing else has happened, and in one with a history."""
import os
import pickle

import numpy as np

from . import energies as En
from . import mix as X
from .blown import blown
from .lazy import flory

OMIT = ("additional_chis_shift", "constraint_acceptance_ratio", "constraint_elasticity", "kill_threshold", "revive_scaler", "max_revive_per_compartment",
        "random_std", "acceptance_Js", "acceptance_omega", "Js_step_upper_bound")


def forked(func, *args):
    """Run a function of this module in a fork of this (idle) process."""
    import flory.mcmp  # noqa: F401  imported once, nothing created

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(globals()[func](*args))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def outcome(fn):
    """Result of a computation, or the fact that it failed."""
    try:
        return fn()
    except Exception as e:
        return "diverged" if blown(e) else "failed: " + type(e).__name__


def spec(rng):
    """A random computation; options of the finder are partly left to the defaults."""
    mix = X.rand_mix(rng, maxM=8)
    p = En.compositions(rng, mix.N, positive=True)
    return {"mix": mix, "omit": [k for k in OMIT if rng.random() < 0.5], "seed": int(rng.integers(1 << 30)), "n": int(rng.integers(1, 12)),
            "p": p if p.size else np.full(mix.N, 1 / mix.N), "index": int(rng.integers(mix.N)), "defaults": bool(rng.random() < 0.5)}


def compute(s):
    """Everything the library has to say about a mixture."""
    mix, p, ix, out = s["mix"], s["p"], s["index"], {}

    def run():
        opts = {k: v for k, v in mix.options().items() if k not in s["omit"]}
        f = flory.CoexistingPhasesFinder(mix.interaction(), mix.entropy(), mix.ensemble(), mix.constraints() or None, rng=np.random.default_rng(s["seed"]), **opts)
        first = f.omegas.copy()
        if s["defaults"]:  # steps from the constructor of another finder must not matter
            f = flory.CoexistingPhasesFinder(mix.interaction(), mix.entropy(), mix.ensemble(), mix.constraints() or None, rng=np.random.default_rng(s["seed"]),
                                             **opts, max_steps=s["n"], interval=max(1, s["n"] // 2), tolerance=1e-300)
            ph = f.run()
        else:
            ph = f.run(max_steps=s["n"], interval=s["n"], tolerance=1e-300)
        d = f.diagnostics
        out["phases"] = [np.array(ph.volumes), np.array(ph.fractions), f.omegas.copy(), first, np.array([float(d[k]) for k in
                         ("steps", "max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left")])]
        f.set_interaction(mix.interaction())
        f.set_entropy(mix.entropy())
        f.set_ensemble(mix.ensemble())
        f.set_constraints(mix.constraints() or None)
        f.reinitialize_random()
        again = outcome(lambda: np.array(f.run(max_steps=s["n"], interval=s["n"], tolerance=1e-300).fractions))
        out["after_replacements"] = [again, f.omegas.copy()]
        c = ph.get_clusters()
        return [np.array(c.volumes), np.array(c.fractions), np.array(ph.sort().fractions), np.array(ph.normalize().volumes)]

    out["clusters"] = outcome(run)
    fe = mix.free_energy()
    out["analysis"] = [outcome(lambda fn=fn: np.array(fn())) for fn in (
        lambda: fe.free_energy_density(p), lambda: fe.jacobian(p), lambda: fe.hessian(p, ix), lambda: fe.chemical_potentials(p), lambda: fe.pressure(p, ix),
        lambda: fe.exchange_chemical_potentials(p, ix), lambda: fe.num_unstable_modes(p), lambda: fe.jacobian(p, ix))]
    rng = np.random.default_rng(s["seed"])
    out["random"] = [np.array(flory.common.phases.get_uniform_random_composition(mix.N, rng)),
                     np.array(flory.FloryHuggins.from_random_normal(mix.N, 1.0, 2.0, rng=rng).interaction.chis),
                     np.array(flory.FloryHuggins(mix.N, 1.0).interaction.chis), np.array(flory.FloryHuggins(mix.N, 1.0).entropy.sizes),
                     np.array(flory.IdealGasEntropy(mix.N).sizes)]
    return out


def history(rng):
    """Use the library for something else."""
    s = spec(rng)
    s["omit"] = []
    compute(s)
    mix = s["mix"]
    try:
        f = mix.finder(int(rng.integers(1000)), max_steps=int(rng.integers(1, 9)), interval=3, tolerance=float(rng.choice([1e-300, 1e30])))
        f.run()
        f.set_interaction(mix.interaction(), additional_chis_shift=float(rng.uniform(0.1, 9)))
        if mix.cons:
            f.set_constraints(mix.constraints(), constraint_acceptance_ratio=float(rng.uniform(0.1, 3)), constraint_elasticity=float(rng.uniform(0, 3)))
        f.reinitialize_random()
        f.run(max_steps=3, tolerance=1e-300)
        inter = mix.interaction()
        if not mix.block:
            inter.set_random_chis(1.0, 3.0, rng=rng)
    except (ValueError, ArithmeticError) as e:
        if not blown(e):
            raise


def agree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
