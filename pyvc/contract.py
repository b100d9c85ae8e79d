"""Registry of contracts and of known findings."""
from __future__ import annotations

CONTRACTS = {}
FINDINGS = {}


class Contract:
    def __init__(self, pid, name, fn, functions, samples, bounded, paths, seconds, assumes, covers, weight):
        self.pid = pid
        self.name = name
        self.fn = fn
        self.functions = functions
        self.samples = samples
        self.bounded = bounded  # reason why only the bounded reading is used, or None
        self.paths = paths
        self.seconds = seconds
        self.assumes = assumes
        self.covers = covers  # cases that a proof must have reached
        self.weight = weight  # longest first

    @property
    def id(self):
        return f"{self.pid}.{self.name}"


def contract(pid, name=None, functions=(), samples=300, bounded=None, paths=20000, seconds=400, assumes=(), covers=(),
             weight=1):
    def deco(fn):
        c = Contract(pid, name or fn.__name__, fn, tuple(functions), samples, bounded, paths, seconds, tuple(assumes),
                     tuple(covers), weight)
        CONTRACTS.setdefault(pid, {})[c.name] = c
        return fn
    return deco


def finding(pid, name=None):
    """A genuine defect that is recorded: the function returns what fails on the real code, or None if nothing does."""
    def deco(fn):
        FINDINGS.setdefault(pid, {})[name or fn.__name__] = fn
        return fn
    return deco
