"""
Loop invariants for loops that carry state from one iteration to the next (other loops over sequences of unknown length
need none: see engine.loop_seg).
"""
from __future__ import annotations

import z3

from .values import Base, ContinueEx, Infeasible, Obj, Opaque, Seg, Seq, Unsupported


class Batching:
    """
    Invariant of a generator that groups the items of a sequence: what has been yielded so far, followed by the list
    that is being built, is what has been read so far; every list yielded has `size` items, the list that is being built
    has fewer. After the loop, the lists yielded in it are the segment `self.full`, the list left over is `self.left`.
    """

    def __init__(self, size, func):
        self.func = func
        self.size = size
        self.full = None
        self.left = None

    def carried(self, env):
        return [n for n, v in env.vars.items() if isinstance(v, Seq) and v.kind == "list"]

    def applies(self, e, env):
        return env.yields is not None and self.full is None and env.func.name == self.func

    def arbitrary(self, e, name):
        b = Base(name, lambda p: Opaque(z3.Const(p, Obj)))
        e.canon(b)
        return Seg(b, [(z3.BoolVal(True), (b.canon,))])

    def run(self, e, env, seg, body):
        names = self.carried(env)
        if len(names) != 1:
            raise Unsupported(f"the loop carries {names}, the invariant is about one list")
        name = names[0]
        if env.vars[name].items or env.yields.items:
            raise Unsupported("the invariant does not cover a loop that starts half-way")
        e.prove("loop invariant: it holds initially", TRUE)
        done, rows = self.arbitrary(e, "yielded"), self.arbitrary(e, "unfinished")
        e.fact(e.seg_len(rows) < self.size)

        def state(tag):
            env_old = env.vars[name]
            e.setvar(env, name, e.new_seq([rows], "list"))
            e.trail.append(("items", env.yields, env.yields.items))
            env.yields.items = [done]

        if any(len(items) != 1 for _, items in seg.cases) or len(seg.cases) != 1:
            raise Unsupported("a sequence that is not read item by item")
        cond, (item,) = seg.cases[0]
        base = seg.base
        e.canon(base)

        def thunk():
            e.solver.add(base.ne)
            e.add(cond)
            if e.check() == z3.unsat:
                raise Infeasible()
            state("before")
            try:
                body(item)
            except ContinueEx:
                pass
            now, out = env.vars.get(name), env.yields.items
            if not isinstance(now, Seq):
                raise Unsupported("the list is gone")
            if not out or out[0] is not done:
                e.fail("loop invariant: what was yielded stays yielded", repr(out))
                return
            flat = []
            for x in out[1:]:
                if not isinstance(x, Seq):
                    raise Unsupported("something else than a list is yielded")
                flat.extend(x.items)
                e.prove("loop invariant: every batch but the last is full", e.as_int(e.length(x)) == self.size,
                        lambda: repr(x))
            flat.extend(now.items)
            e.goal_mode = True
            try:
                f = e.eq(e.new_seq(flat, "list"), e.new_seq([rows, item], "list"))
            finally:
                e.goal_mode = False
            e.prove("loop invariant: every record once, in order", f, lambda: repr(flat))
            e.prove("loop invariant: a full batch is passed on", e.as_int(e.length(now)) < self.size, lambda: repr(now))
            e.covers["iteration"] = e.covers.get("iteration", 0) + 1

        e.explore(thunk)
        state("after")
        self.full, self.left = done, rows


TRUE = z3.BoolVal(True)
