"""Runs contracts: proof, concrete runs, verdict, evidence."""
from __future__ import annotations

import importlib
import random
import time
import traceback

from .contract import CONTRACTS, FINDINGS
from .engine import Engine
from .standin import misused
from .gen import NatG, Skip, SpecError, SymG, Violation
from .values import Infeasible, PyRaise, Unsupported


def load(pid):
    importlib.import_module(f"contracts.{pid.lower()}")


def find(cid):
    pid, name = cid.split(".", 1)
    load(pid)
    return CONTRACTS[pid][name]


class ProofResult:
    def __init__(self, cid):
        self.cid = cid
        self.obligations = []
        self.unsupported = None
        self.error = None
        self.stats = {}
        self.interpreted = {}
        self.contract_uses = {}
        self.covers = {}
        self.wall = 0.0

    @property
    def discharged(self):
        return [o for o in self.obligations if o[1] == "discharged"]

    @property
    def bad(self):
        return [o for o in self.obligations if o[1] != "discharged"]

    @property
    def refuted(self):
        return [o for o in self.obligations if o[1] == "refuted"]

    @property
    def proved(self):
        return (self.unsupported is None and self.error is None and not self.bad and len(self.obligations) > 0)

    def summary(self):
        return (f"proved={self.proved} obligations={len(self.obligations)} bad={len(self.bad)} "
                f"paths={self.stats.get('paths')} unsupported={self.unsupported} error={self.error} covers={self.covers}")


def finding(fid):
    pid, name = fid.split(".", 1)
    load(pid)
    return FINDINGS[pid][name]()


def prove(cid, factor=1.0) -> ProofResult:
    c = find(cid)
    res = ProofResult(cid)
    e = Engine(path_budget=int(c.paths * factor), time_budget=c.seconds * factor)
    g = SymG(e)

    def thunk():
        try:
            c.fn(g)
        except PyRaise as p:
            e.fail("no unexpected exception", f"{type(p.value).__name__}: {getattr(p.value, 'args', ())!r}"[:500])
        except SpecError as ex:
            e.fail("the emitted text can be read", str(ex)[:1000])

    t = time.monotonic()
    try:
        e.explore_top(thunk)
    except Unsupported as ex:
        res.unsupported = str(ex)
        res.trace = traceback.format_exc()
    except RecursionError:
        res.unsupported = "recursion"
        res.trace = ""
    except Exception as ex:  # the verifier itself failed: nothing is claimed
        res.error = f"{type(ex).__name__}: {ex}"
        res.trace = traceback.format_exc()
    res.wall = time.monotonic() - t
    res.obligations = e.obligations
    res.stats = e.stats
    res.interpreted = dict(e.interpreted)
    res.contract_uses = dict(e.contract_uses)
    res.covers = dict(e.covers)
    return res


class HuntResult:
    def __init__(self):
        self.runs = 0
        self.skipped = 0
        self.clauses = 0
        self.found = None
        self.error = None
        self.covers = {}
        self.seen = set()
        self.sample = None

    @property
    def distinct(self):
        return len(self.seen)

    def __repr__(self):
        return f"runs={self.runs} skipped={self.skipped} clauses={self.clauses} found={self.found} error={self.error} covers={self.covers}"


def run_once(c, seed):
    g = NatG(random.Random(seed))
    try:
        c.fn(g)
    except SpecError as ex:
        raise Violation("the emitted text can be read", str(ex)).with_traceback(ex.__traceback__)
    finally:
        g.close()
    return g


def hunt(cid, runs, seed=1, seconds=60.0) -> HuntResult:
    c = find(cid)
    h = HuntResult()
    end = time.monotonic() + seconds
    for i in range(runs):
        if time.monotonic() > end:
            break
        s = f"{c.id}/{seed}/{i}"
        g = NatG(random.Random(s))
        try:
            try:
                c.fn(g)
            except SpecError as ex:
                raise Violation("the emitted text can be read", str(ex))
            finally:
                g.close()
            h.runs += 1
            h.clauses += g.checked
            if g.checked:
                if h.sample is None and len(g.log) > 2:
                    h.sample = {"contract": c.id, "seed": s, "inputs": [(k, repr(x)[:80]) for k, x in g.log[:25]]}
                h.seen.add(hash(tuple((k, repr(x)) for k, x in g.log)))
            for k, v in g.covers.items():
                h.covers[k] = h.covers.get(k, 0) + v
        except Skip:
            h.skipped += 1
        except Violation as v:
            h.found = {"contract": c.id, "seed": s, "clause": v.name, "detail": v.detail[:4000],
                       "inputs": [(k, repr(x)[:200]) for k, x in g.log]}
            return h
        except Exception as ex:
            if misused(ex):
                h.skipped += 1
                continue
            h.found = {"contract": c.id, "seed": s, "clause": "no unexpected exception",
                       "detail": "".join(traceback.format_exception(ex))[-4000:],
                       "inputs": [(k, repr(x)[:200]) for k, x in g.log]}
            return h
    return h
