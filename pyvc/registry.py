from __future__ import annotations

CONTRACTS = []


class Contract:
    def __init__(self, fn, prop, name, fns, bounded, samples, note, assumes, weight, max_paths, budget):
        self.fn, self.prop, self.name, self.fns = fn, prop, name, fns
        self.bounded, self.samples, self.note, self.assumes = bounded, samples, note, assumes
        self.weight, self.max_paths, self.budget = weight, max_paths, budget
        self.module = fn.__module__

    @property
    def id(self):
        return f"{self.prop}/{self.name}"


def contract(prop, name, fns=(), bounded=False, samples=None, note="", assumes=(), weight=1,
             max_paths=20000, budget=None):
    """Register a contract.  fns: functions of /repo under contract (qualified names)."""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        for p in props:
            CONTRACTS.append(Contract(fn, p, name, list(fns), bounded, samples, note, list(assumes),
                                      weight, max_paths, budget))
        return fn

    return deco
