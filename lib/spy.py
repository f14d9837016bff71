"""Spies: recording proxies for ingredients, plugged in through the ingredient protocol.

They work in the interpreted lane only. Every call of a method of a compiled ingredient is
recorded with copies of its array arguments before and after the call and of its result.
"""
import numpy as np

# positional arguments of the documented ingredient protocol
PROTOCOL = {
    "partition": ("phis_comp", "omegas", "Js"), "comp_to_feat": ("phis_feat", "phis_comp"),
    "normalize": ("phis_comp", "Qs", "masks"), "prepare": ("phis_feat", "Js", "masks"), "evolve": ("step", "masks"),
    "potential": ("phis_feat",), "incomp_coef": ("phis_feat",), "initialize": ("num_part",),
}


def snap(v):
    return v.copy() if isinstance(v, np.ndarray) else v


class Event:
    __slots__ = ("who", "name", "before", "after", "result")

    def __init__(self, who, name, before):
        self.who, self.name, self.before, self.after, self.result = who, name, before, None, None


class Tape:
    def __init__(self, limit=None):
        self.events = []
        self.hook = None  # hook(event) may raise (fault injection) or observe
        self.limit = limit

    def clear(self):
        self.events = []

    def of(self, name, who=None):
        return [e for e in self.events if e.name == name and (who is None or e.who == who)]

    def steps(self):
        """Group the events by iteration step (a step starts with a partition call)."""
        out = []
        for e in self.events:
            if e.name == "partition":
                out.append({"partition": e})
            elif out:
                d = out[-1]
                if e.name in ("normalize", "comp_to_feat") and e.name not in d:
                    d[e.name] = e
                elif e.name == "evolve":
                    d.setdefault("evolve", []).append(e)
        return out


class SpyCompiled:
    def __init__(self, inner, who, tape):
        self.__dict__.update(_inner=inner, _who=who, _tape=tape)

    def __getattr__(self, name):
        inner, who, tape = self._inner, self._who, self._tape
        val = getattr(inner, name)
        if not callable(val):
            return val
        names = PROTOCOL.get(name, ())

        def call(*args, **kwargs):
            bound = {(names[i] if i < len(names) else str(i)): a for i, a in enumerate(args)}
            bound.update(kwargs)
            ev = Event(who, name, {k: snap(v) for k, v in bound.items()})
            if tape.hook:
                tape.hook(ev)
            res = val(*args, **kwargs)
            ev.after = {k: snap(v) for k, v in bound.items()}
            ev.result = snap(res)
            tape.events.append(ev)
            return res

        return call


def spied(ingredient, who, tape):
    """Return the ingredient with compiled() returning a spy."""
    orig = ingredient.compiled

    def compiled(**kw):
        return SpyCompiled(orig(**kw), who, tape)

    ingredient.compiled = compiled
    return ingredient


def spied_parts(mix, tape, only=None):
    cons = [spied(c, f"constraint{i}", tape) for i, c in enumerate(mix.constraints())]
    return {"interaction": spied(mix.interaction(), "interaction", tape), "entropy": spied(mix.entropy(), "entropy", tape),
            "ensemble": spied(mix.ensemble(), "ensemble", tape), "constraints": cons or None}
