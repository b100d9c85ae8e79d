"""Symbolic execution of the real functions, with unbounded loops summarised inductively."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import functools
import inspect
import operator
import re
import time
import types
import typing

import z3

from . import source
from .standin import lacks
from .values import (
    NativeFn, Atom, Base, BoundMethod, BreakEx, Closure, ContinueEx, Infeasible, Obj, Opaque, Poison, PyRaise, ReturnEx,
    SBool, SDict, Seg, Seq, SInt, SOpt, SStr, SuperProxy, Sym, SymMethod, Text, Unsupported, pieces_of, rope,
)

MISSING = object()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Env:
    __slots__ = ("vars", "parent", "nonlocals", "func", "globs", "cls", "yields")

    def __init__(self, parent=None, globs=None, func=None, cls=None):
        self.vars = {}
        self.parent = parent
        self.nonlocals = ()
        self.globs = globs
        self.func = func
        self.cls = cls
        self.yields = None


class Explorer:
    __slots__ = ("script", "taken", "pending", "conds", "loop")

    def __init__(self, script):
        self.script = script
        self.taken = []
        self.pending = []
        self.conds = []


class Failure:
    def __init__(self, name, status, detail, path):
        self.name = name
        self.status = status  # refuted | undecided
        self.detail = detail
        self.path = path


NOT_INTERPRETED = ("str.", "re.", "match.", "nogroup.", "int_of_text")


def leaves_free(model):
    "Methods of texts are not interpreted: the model may give them values that they do not have."
    return model is not None and any(d.name().startswith(NOT_INTERPRETED) for d in model.decls())


class Engine:
    def __init__(self, *, timeout_ms=10000, path_budget=6000, time_budget=600):
        self.timeout_ms = timeout_ms
        self.path_budget = path_budget
        self.deadline = time.monotonic() + time_budget
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = {"checks": 0, "solver_s": 0.0, "paths": 0}
        self.overrides = {}
        self.contract_uses = {}
        self.interpreted = {}
        self.obligations = []  # (name, status, detail)
        self.covers = {}
        self.builtin_handlers = {}
        self.sym_methods = {}
        self.native_ok = set()
        from . import builtins_ as b

        b.install(self)
        self.reset()

    # ------------------------------------------------------------------ state of one run
    def reset(self):
        self.loop_rule = None
        self.injective = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.permanent = []
        self.fact_ids = set()
        self.marks = []
        self.trail = []
        self.stack = []
        self.serial = 0
        self.births = {}
        self.keep = []
        self.literals = {}
        self.reads = None
        self.counter = {}
        self.depth = 0
        self.memo = {}
        self.globals = {}
        self.active = []
        self.at_terms = {}
        self.ex_conds = {}

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def born(self, obj):
        self.serial += 1
        self.births[id(obj)] = self.serial
        self.keep.append(obj)
        return obj

    def new_seq(self, items=(), kind="list"):
        self.serial += 1
        return Seq(items, kind, self.serial)

    def new_dict(self, items=()):
        self.serial += 1
        return SDict(items, self.serial)

    # ------------------------------------------------------------------ solver
    def push(self):
        self.solver.push()
        self.marks.append(len(self.permanent))

    def pop(self):
        self.solver.pop()
        mark = self.marks.pop()
        for f in self.permanent[mark:]:
            self.solver.add(f)

    def fact(self, e):
        "Adds an axiom that holds on every path."
        k = e.get_id()
        if k in self.fact_ids:
            return
        self.fact_ids.add(k)
        self.permanent.append(e)
        self.solver.add(e)

    def check(self, *assumptions):
        if time.monotonic() > self.deadline:
            raise Unsupported("time budget exhausted")
        t = time.monotonic()
        self.solver.push()
        for a in assumptions:
            self.solver.add(a)
        r = self.solver.check()
        self.last_model = None
        if r == z3.sat:
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        self.stats["checks"] += 1
        self.stats["solver_s"] += time.monotonic() - t
        return r

    def add(self, e):
        "Assumes a condition on the current path."
        self.solver.add(e)
        if self.stack:
            self.stack[-1].conds.append(e)

    def assume(self, e):
        e = self.as_z3(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if self.check() == z3.unsat:
            raise Infeasible()

    def known(self, e):
        "True if the condition is entailed on the current path."
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e)) == z3.unsat

    def choose(self, e) -> bool:
        "Decides a condition on the current path, exploring both sides."
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        ex = self.stack[-1]
        i = len(ex.taken)
        if i < len(ex.script):
            val, forced = ex.script[i]
        else:
            t = self.check(e)
            forced = False
            if t == z3.unsat:
                val, forced = False, True
            else:
                f = self.check(z3.Not(e))
                if f == z3.unsat:
                    val, forced = True, True
                else:
                    val = True
                    ex.pending.append(ex.taken + [(False, False)])
        ex.taken.append((val, forced))
        lit = e if val else z3.Not(e)
        self.solver.add(lit)
        if not forced:
            ex.conds.append(lit)
        return val

    def choose_n(self, exprs):
        "Picks the first condition that holds; None if none does."
        for i, e in enumerate(exprs):
            if self.choose(e):
                return i
        return None

    def explore(self, thunk):
        "Runs the thunk along every feasible path; all effects are undone afterwards."
        results = []
        work = [[]]
        while work:
            self.stats["paths"] += 1
            if self.stats["paths"] > self.path_budget:
                raise Unsupported("path budget exhausted")
            if time.monotonic() > self.deadline:
                raise Unsupported("time budget exhausted")
            script = work.pop()
            ex = Explorer(script)
            self.stack.append(ex)
            self.push()
            mark = len(self.trail)
            serial = self.serial
            try:
                out = thunk()
                results.append((list(ex.conds), out))
            except Infeasible:
                pass
            finally:
                self.rollback(mark, serial)
                self.pop()
                self.stack.pop()
            work.extend(ex.pending)
        return results

    def explore_top(self, thunk):
        "Runs the thunk along every feasible path, each from a clean state."
        work = [[]]
        while work:
            self.stats["paths"] += 1
            if self.stats["paths"] > self.path_budget:
                raise Unsupported("path budget exhausted")
            if time.monotonic() > self.deadline:
                raise Unsupported("time budget exhausted")
            self.reset()
            ex = Explorer(work.pop())
            self.stack.append(ex)
            try:
                thunk()
            except Infeasible:
                pass
            work.extend(ex.pending)

    def rollback(self, mark, serial):
        "Undoes all changes since the mark, except to objects created since (they may be part of the outcome)."
        while len(self.trail) > mark:
            entry = self.trail.pop()
            k = entry[0]
            if k in ("append", "items", "dset"):
                if entry[1].birth > serial:
                    continue
            elif k == "attr" and self.births.get(id(entry[1]), 0) > serial:
                continue
            if k == "env":
                _, env, name, old = entry
                if old is MISSING:
                    env.vars.pop(name, None)
                else:
                    env.vars[name] = old
            elif k == "attr":
                _, obj, name, old = entry
                if old is MISSING:
                    obj.__dict__.pop(name, None)
                else:
                    obj.__dict__[name] = old
            elif k in ("append", "items"):
                _, seq, old = entry
                seq.items = old
            elif k == "dset":
                _, d, old = entry
                d.items = old
            elif k == "call":
                entry[1]()

    # ------------------------------------------------------------------ obligations
    def prove(self, name, e, detail=""):
        "An obligation: the condition must hold on every model of the current path."
        e = self.as_z3(e)
        s = z3.simplify(e)
        if z3.is_true(s):
            self.obligations.append((name, "discharged", ""))
            return True
        r = self.check(z3.Not(s))
        if r == z3.unsat:
            self.obligations.append((name, "discharged", ""))
            return True
        if r == z3.sat:
            m = self.last_model
            detail = detail() if callable(detail) else detail
            text = f"{detail}\nobligation: {s}\ncounter-model: {m}\npath: {self.path_text()}"
            self.obligations.append((name, "undecided" if leaves_free(m) else "refuted", text))
        else:
            detail = detail() if callable(detail) else detail
            self.obligations.append((name, "undecided", f"{detail}\nobligation: {s}\nsolver: {r}"))
        return False

    def fail(self, name, detail, status="refuted"):
        "An obligation that is false on this (feasible) path."
        if status == "refuted":
            r = self.check()
            if r == z3.unsat:
                self.obligations.append((name, "discharged", "path infeasible"))
                return
            if r != z3.sat or leaves_free(self.last_model):
                status = "undecided"
            detail = f"{detail}\npath: {self.path_text()}\ncounter-model: {self.last_model}"
        self.obligations.append((name, status, detail))

    def path_text(self):
        return "; ".join(str(c) for ex in self.stack for c in ex.conds)

    # ------------------------------------------------------------------ conversions
    def as_z3(self, v):
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if z3.is_expr(v):
            return v
        return self.truth_formula(v)

    def lit(self, s: str):
        c = self.literals.get(s)
        if c is None:
            c = z3.Const(f"lit:{s!r}", Text)
            for o in self.literals.values():
                self.fact(o != c)
            self.literals[s] = c
        return c

    def fn(self, name, *sorts):
        key = ("fn", name) + tuple(str(s) for s in sorts)
        f = self.memo.get(key)
        if f is None:
            f = z3.Function(name, *sorts)
            self.memo[key] = f
        return f

    def term(self, s):
        "The z3 term of a text."
        if type(s).__name__ == "LocalId":
            # a key of a dictionary: equal exactly if the names are
            s = s.__dict__["id"]
        ps = pieces_of(s)
        if not ps:
            return self.lit("")
        terms = [self.lit(p) if isinstance(p, str) else p.e for p in ps]
        if len(terms) == 1:
            return terms[0]
        cat = self.fn("cat", Text, Text, Text)
        t = terms[-1]
        for x in reversed(terms[:-1]):
            t = cat(x, t)
        if isinstance(ps[0], str):
            key = ("catfacts", t.get_id())
            if key not in self.memo:
                # a concatenation starts with its first part, and determines the rest
                self.memo[key] = t
                self.fact(self.fn("startswith", Text, Text, z3.BoolSort())(t, terms[0]))
                self.fact(self.fn("rest", Text, Text, Text)(t, terms[0]) == t.arg(1))
        return t

    def obj_term(self, v):
        "A z3 term of sort Obj for any value."
        if isinstance(v, Opaque):
            return v.e
        if isinstance(v, (str, SStr)):
            return self.fn("obj_of_text", Text, Obj)(self.term(v))
        if isinstance(v, SInt):
            return self.fn("obj_of_int", z3.IntSort(), Obj)(v.e)
        if isinstance(v, int) and not isinstance(v, bool):
            return self.fn("obj_of_int", z3.IntSort(), Obj)(z3.IntVal(v))
        if isinstance(v, SOpt):
            return z3.If(v.none, self.obj_term(None), self.obj_term(v.val))
        if isinstance(v, (Seq, tuple)):
            items = v.items if isinstance(v, Seq) else v
            if any(isinstance(i, Seg) for i in items):
                raise Unsupported("term of a sequence of unknown length")
            f = self.fn(f"tuple{len(items)}", *([Obj] * (len(items) + 1))) if items else None
            return f(*[self.obj_term(i) for i in items]) if f is not None else z3.Const("obj:()", Obj)
        try:
            key = ("objconst", v if isinstance(v, (bool, type(None), bytes, float)) else id(v))
        except TypeError:
            key = ("objconst", id(v))
        if isinstance(v, bool) or v is None:
            key = ("objconst", repr(v))
        c = self.memo.get(key)
        if c is None:
            c = z3.Const(f"obj:{len(self.memo)}:{type(v).__name__}", Obj)
            for k, o in list(self.memo.items()):
                if k[0] == "objconst":
                    self.fact(o != c)
            self.memo[key] = c
            self.keep.append(v)
        return c

    def text_fn(self, name, *args, kind="text", arg=None):
        "An uninterpreted text-valued function of texts."
        terms = []
        for a in args:
            if isinstance(a, (str, SStr)):
                terms.append(self.term(a))
            elif isinstance(a, SInt):
                terms.append(a.e)
            elif isinstance(a, int) and not isinstance(a, bool):
                terms.append(z3.IntVal(a))
            elif isinstance(a, Opaque):
                terms.append(a.e)
            else:
                raise Unsupported(f"uninterpreted function of {type(a)}")
        f = self.fn(name, *[t.sort() for t in terms], Text)
        return SStr([Atom(f(*terms), kind, arg)])

    def ident(self, s, style="ident"):
        "The delimited identifier that decodes to the text (contract of the quoting functions, property P01)."
        t = self.term(s)
        e = self.fn(style, Text, Text)(t)
        self.fact(self.fn("un" + style, Text, Text)(e) == t)
        return SStr([Atom(e, style, s)])

    # ------------------------------------------------------------------ truth
    def truth_formula(self, v):
        v0 = v
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, Poison):
            raise Unsupported(f"loop-carried value: {v.why}")
        if isinstance(v, SOpt):
            return z3.And(z3.Not(v.none), self.truth_formula(v.val))
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, SStr):
            return self.nonempty_text(v)
        if isinstance(v, Seq):
            return self.nonempty_seq(v)
        if isinstance(v, SDict):
            return self.nonempty_seq(v)
        if isinstance(v, Opaque):
            return self.fn("truthy", Obj, z3.BoolSort())(v.e) if v.cls is object else TRUE
        if isinstance(v, (Closure, BoundMethod, SymMethod)):
            return TRUE
        if isinstance(v0, (bool, int, float, str, bytes, type(None), tuple, list, dict, set, frozenset)):
            return TRUE if v else FALSE
        cls = type(v)
        for name in ("__bool__", "__len__"):
            m = inspect.getattr_static(cls, name, None)
            if m is not None and source.interpretable(m):
                r = self.call(BoundMethod(v, m), [], {})
                return self.truth_formula(r)
        return TRUE if v else FALSE

    def truth(self, v) -> bool:
        if isinstance(v, SOpt):
            # resolve None first: keeps the two paths apart
            if self.choose(v.none):
                return False
            return self.truth(v.val)
        return self.choose(self.truth_formula(v))

    def nonempty_text(self, s):
        ors = []
        for p in pieces_of(s):
            if isinstance(p, str) or p.kind in ("ident", "bident", "lit", "int", "stmt", "coldef", "type"):
                return TRUE
            if p.kind == "join":
                sep, seq = p.arg
                ors.append(z3.Or(*[self._item_nonempty(i, sep) for i in seq.items] or [FALSE]))
            else:
                ors.append(p.e != self.lit(""))
        return z3.Or(*ors) if ors else FALSE

    def _item_nonempty(self, i, sep):
        if isinstance(i, Seg):
            return self.exists(i.base, z3.Or(*[
                z3.And(c, z3.Or(*[self._item_nonempty(x, sep) for x in items])) for c, items in i.cases if items
            ] or [FALSE]))
        return self.nonempty_text(i)

    def nonempty_seq(self, v):
        self.note_read(v)
        ors = []
        for i in v.items:
            if isinstance(i, Seg):
                ors.append(self.seg_nonempty(i))
            else:
                return TRUE
        return z3.Or(*ors) if ors else FALSE

    def seg_nonempty(self, seg):
        conds = []
        for c, items in seg.cases:
            inner = []
            for x in items:
                inner.append(self.seg_nonempty(x) if isinstance(x, Seg) else TRUE)
            if inner:
                conds.append(z3.And(c, z3.Or(*inner)))
        return self.exists(seg.base, z3.Or(*conds) if conds else FALSE)

    # ------------------------------------------------------------------ generic elements
    def canon(self, base: Base):
        if base.canon is None:
            prefix = base.prefix("e")
            mark = len(self.permanent)
            el = base.make(prefix)
            base.axioms = self.permanent[mark:]
            base.canon = el
            if base.key is not None:
                t = self.term(base.key(el))
                self.fact(z3.Implies(base.ne, self.mem(base)(t)))
        return base.canon

    def permuted(self, base, name):
        "The same elements in an unknown order."
        base0 = base
        p = Base(self.fresh(f"{base.name}.{name}"), base.make, base.key)
        p.perm_of = base0
        el = self.canon(p)
        self.fact(p.ne == base0.ne)
        old, new = base0.prefix("e"), p.prefix("e")
        p.facts = []
        for f in getattr(base0, "facts", []):
            f2 = self.transfer(f, old, new)
            p.facts.append(f2)
            self.fact(f2)
        self.fact(self.count(p, TRUE) == self.count(base0, TRUE))
        return p

    def mem(self, base):
        while getattr(base, "perm_of", None) is not None:
            base = base.perm_of
        return self.fn(f"mem:{base.name}", Text, z3.BoolSort())

    def has(self, base, t):
        "Some element of the base has the key."
        f = self.mem(base)(t)
        self.fact(z3.Implies(f, base.ne))
        return f

    def instance(self, base: Base, tag):
        "Another element of the base, distinct from the canonical one."
        key = ("inst", base.name, tag)
        if key in base.instances:
            return base.instances[key]
        self.canon(base)
        prefix = base.prefix(tag)
        el = base.make(prefix)
        base.instances[key] = (el, prefix)
        facts = getattr(base, "facts", [])
        for f in facts:
            self.fact(self.transfer(f, base.prefix("e"), prefix))
        return base.instances[key]

    def _transfer_at(self, x, n, old, new):
        "An element looked up by a key that depends on the renamed element becomes the element at the renamed key."
        i = n.rindex(".at#")
        j = n.find(".", i + 1)
        prefix = n if j < 0 else n[:j]
        base, t = self.at_terms[prefix]
        t2 = self.transfer(t, old, new)
        if t2.eq(t):
            return None
        _, prefix2 = self.at(base, t2)
        return z3.Const(prefix2 + n[len(prefix):], x.sort())

    def transfer(self, e, old, new):
        if not z3.is_expr(e):
            raise Unsupported("transfer of a non-formula")
        subs = []
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n == old or n.startswith(old + "."):
                    subs.append((x, z3.Const(new + n[len(old):], x.sort())))
                elif ".at#" in n:
                    y = self._transfer_at(x, n, old, new)
                    if y is not None:
                        subs.append((x, y))
                elif n in self.ex_conds and self.mentions(x, old):
                    raise Unsupported("a nested existential about another element")
            elif z3.is_app(x):
                d = x.decl()
                n = d.name()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and n.startswith("mem:" + old + "."):
                    raise Unsupported("transfer of a nested membership")
                todo.extend(x.children())
        if not subs:
            return e
        r = z3.substitute(e, *subs)
        self.member_facts(r)
        return r

    def member_facts(self, e):
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith("mem:"):
                self.fact(z3.Implies(x, z3.Bool(f"{x.decl().name()[4:]}.nonempty")))
            todo.extend(x.children())

    def rename(self, v, old, new, memo):
        """
        Renames a value built on one generic element into the same value built on another; values that have nothing
        to do with the element stay what they are (and keep their identity).
        """
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, (SBool, SInt)):
            f = self.transfer(v.e, old, new)
            return v if f.eq(v.e) else type(v)(f)
        if isinstance(v, SOpt):
            n, x = self.transfer(v.none, old, new), self.rename(v.val, old, new, memo)
            return v if x is v.val and n.eq(v.none) else SOpt(n, x)
        if isinstance(v, SStr):
            out, same = [], True
            for p in v.pieces:
                if not isinstance(p, str):
                    f = self.transfer(p.e, old, new)
                    a = self.rename(p.arg, old, new, memo) if p.arg is not None else None
                    if not f.eq(p.e) or a is not p.arg:
                        p, same = Atom(f, p.kind, a), False
                out.append(p)
            return v if same else SStr(out)
        if isinstance(v, Opaque):
            f = self.transfer(v.e, old, new)
            if f.eq(v.e):
                return v
            r = Opaque(f, v.cls)
            memo[id(v)] = r
            self.keep.append(v)
            r.attrs = {k: self.rename(a, old, new, memo) if not callable(a) else a for k, a in v.attrs.items()}
            return r
        if isinstance(v, tuple):
            xs = tuple(self.rename(x, old, new, memo) for x in v)
            return v if all(a is b for a, b in zip(v, xs)) else xs
        if isinstance(v, Seq):
            r = self.new_seq([], v.kind)
            memo[id(v)] = r
            xs = [self.rename(x, old, new, memo) for x in v.items]
            if all(a is b for a, b in zip(v.items, xs)):
                memo[id(v)] = v
                return v
            r.items = xs
            return r
        if isinstance(v, Seg):
            b = v.base
            if b.name.startswith(old + "."):
                raise Unsupported("renaming of a nested segment")
            cases = [(self.transfer(c, old, new), tuple(self.rename(x, old, new, memo) for x in items)) for c, items in v.cases]
            if all(c.eq(d) and all(a is b for a, b in zip(xs, ys)) for (c, xs), (d, ys) in zip(v.cases, cases)):
                return v
            return Seg(b, cases, v.rev)
        if isinstance(v, (bool, int, float, str, bytes, type(None), type, types.FunctionType, types.ModuleType)):
            return v
        if isinstance(v, BoundMethod):
            return BoundMethod(self.rename(v.obj, old, new, memo), v.func)
        if isinstance(v, (Closure, SymMethod, SDict)):
            raise Unsupported(f"renaming of {type(v).__name__}")
        d = getattr(v, "__dict__", None)
        if d is not None and (type(v).__module__.startswith(("pysqlsync", "contracts", "__main__"))
                              or isinstance(v, BaseException)):
            if isinstance(v, BaseException):
                r = type(v).__new__(type(v))
                r.args = self.rename(v.args, old, new, memo)
            else:
                r = object.__new__(type(v))
            memo[id(v)] = r
            self.keep.append(v)
            same = not isinstance(v, BaseException)
            for k, x in d.items():
                y = self.rename(x, old, new, memo)
                r.__dict__[k] = y
                same = same and y is x
            if same:
                memo[id(v)] = v
                return v
            return r
        return v

    def parallel(self, a, b, memo):
        "Maps every part of one generic element to the same part of another."
        if id(a) in memo:
            return
        memo[id(a)] = b
        self.keep.append(a)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                self.parallel(x, y, memo)
        elif isinstance(a, (Seq, SDict)):
            return
        elif isinstance(a, Opaque):
            return
        elif isinstance(a, SOpt):
            self.parallel(a.val, b.val, memo)
        elif isinstance(getattr(a, "__dict__", None), dict) and not isinstance(a, type):
            for k, x in a.__dict__.items():
                if k in b.__dict__ and isinstance(x, (Sym,)) or hasattr(x, "__dict__"):
                    self.parallel(x, b.__dict__.get(k), memo)

    # ------------------------------------------------------------------ existential atoms
    def valid(self, e):
        "Context-free validity."
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(z3.Not(e))
        if len(self.literals) > 1:
            # different literals are different texts
            s.add(z3.Distinct(*self.literals.values()))
        t = time.monotonic()
        r = s.check()
        self.stats["checks"] += 1
        self.stats["solver_s"] += time.monotonic() - t
        return r == z3.unsat

    def exists(self, base, cond):
        "The formula 'some element of the base satisfies the condition'."
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return FALSE
        if z3.is_true(cond):
            return base.ne
        key = ("ex", base.name)
        lst = self.memo.setdefault(key, [])
        self.canon(base)
        f = self.exists_key(base, cond)
        if f is not None:
            return f
        known = list(getattr(base, "axioms", ())) + list(getattr(base, "facts", ()))
        for c, atom in lst:
            if c.eq(cond) or self.valid(z3.Implies(z3.And(base.ne, *known), c == cond)):
                return atom
        atom = z3.Bool(f"{base.name}.ex{len(lst)}")
        self.fact(z3.Implies(atom, base.ne))
        self.fact(z3.Implies(z3.And(base.ne, z3.Not(atom)), z3.Not(cond)))
        for c, a in lst:
            if self.valid(z3.Implies(c, cond)):
                self.fact(z3.Implies(a, atom))
            if self.valid(z3.Implies(cond, c)):
                self.fact(z3.Implies(atom, a))
        empty = [(c, a) for c, a in lst if self.known(z3.Not(a))]
        if empty:
            u = z3.And(*[z3.Not(c) for c, a in empty])
            given = z3.And(*[z3.Not(a) for c, a in empty])
            for c, a in lst:
                if any(a.eq(x) for _, x in empty):
                    continue
                if self.valid(z3.Implies(z3.And(u, c), cond)):
                    self.fact(z3.Implies(given, z3.Implies(a, atom)))
                if self.valid(z3.Implies(z3.And(u, cond), c)):
                    self.fact(z3.Implies(given, z3.Implies(atom, a)))
            if self.valid(z3.Implies(u, z3.Not(cond))):
                self.fact(z3.Implies(given, z3.Not(atom)))
        self.witness(base, cond, atom)
        for prefix in self.memo.get(("first", base.name), []):
            self.fact(z3.Implies(z3.And(z3.Bool(f"{prefix}.present"), self.transfer(cond, base.prefix("e"), prefix)), atom))
        lst.append((cond, atom))
        self.ex_conds[atom.decl().name()] = (base, cond)
        return atom

    def witness(self, base, cond, atom):
        "What an element that satisfies the condition says about other sequences."
        cs = cond.children() if z3.is_and(cond) else [cond]
        for c in cs:
            if z3.is_app(c) and c.num_args() == 1 and c.decl().name().startswith("mem:"):
                self.fact(z3.Implies(atom, z3.Bool(f"{c.decl().name()[4:]}.nonempty")))
            elif not self.mentions(c, base.prefix("e")):
                self.fact(z3.Implies(atom, c))

    def exists_key(self, base, cond):
        "The condition pins the key of the element: the element of that name exists (and satisfies the rest)."
        if base.key is None:
            return None
        ck = self.term(base.key(base.canon))
        if not z3.is_const(ck):
            return None
        cs = cond.children() if z3.is_and(cond) else [cond]
        for i, c in enumerate(cs):
            if z3.is_eq(c):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if a.eq(ck) and not self.mentions(b, base.prefix("e")):
                        rest = cs[:i] + cs[i + 1:]
                        if not rest:
                            return self.has(base, b)
                        _, prefix = self.at(base, b)
                        return z3.And(self.has(base, b), *[self.transfer(r, base.prefix("e"), prefix) for r in rest])
        return None

    def mentions(self, e, prefix):
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x):
                n = x.decl().name()
                if n == prefix or n.startswith(prefix + "."):
                    return True
                if n in self.ex_conds and self.ex_conds[n][0].prefix("e") != prefix and self.mentions(self.ex_conds[n][1], prefix):
                    return True
            todo.extend(x.children())
        return False

    def universal(self, base):
        "What is known of every element of the base on this path: the conditions that no element satisfies."
        return [z3.Not(c) for c, a in self.memo.get(("ex", base.name), []) if self.known(z3.Not(a))]

    def same_cond(self, base, cond, lst):
        "The entry whose condition selects the same elements."
        for c, x in lst:
            if c.eq(cond) or self.valid(c == cond):
                return x
        u = self.universal(base) if lst else []
        if u:
            for c, x in lst:
                if self.valid(z3.Implies(z3.And(*u), c == cond)):
                    return x
        return None

    def count(self, base, cond):
        "The number of elements that satisfy the condition."
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return z3.IntVal(0)
        key = ("cnt", base.name)
        lst = self.memo.setdefault(key, [])
        found = self.same_cond(base, cond, lst)
        if found is not None:
            return found
        n = z3.Int(f"{base.name}.cnt{len(lst)}")
        ex = self.exists(base, cond)
        self.fact(n >= 0)
        self.fact((n > 0) == ex)
        for c, a in lst:
            if self.valid(z3.Implies(c, cond)):
                self.fact(a <= n)
                self.fact((a == n) == z3.Not(self.exists(base, z3.And(cond, z3.Not(c)))))
            elif self.valid(z3.Implies(cond, c)):
                self.fact(n <= a)
                self.fact((a == n) == z3.Not(self.exists(base, z3.And(c, z3.Not(cond)))))
        lst.append((cond, n))
        self.ex_conds[n.decl().name()] = (base, cond)
        return n

    def seg_len(self, seg):
        total = []
        by_k = {}
        for c, items in seg.cases:
            if any(isinstance(x, Seg) for x in items):
                raise Unsupported("length of a nested segment")
            if items:
                by_k.setdefault(len(items), []).append(c)
        for k, cs in by_k.items():
            n = self.count(seg.base, z3.Or(*cs))
            total.append(n * k if k != 1 else n)
        return z3.Sum(*total) if len(total) > 1 else (total[0] if total else z3.IntVal(0))

    def length(self, v):
        self.note_read(v)
        n = 0
        segs = []
        for i in v.items:
            if isinstance(i, Seg):
                segs.append(self.seg_len(i))
            else:
                n += 1
        if not segs:
            return n
        return SInt(z3.simplify(z3.Sum(*segs, z3.IntVal(n))))

    def seg_pos(self, seg):
        "The number of items of the segment before the one under consideration."
        key = ("pos", seg.base.name, seg.rev)
        conds = z3.simplify(z3.Or(*[c for c, items in seg.cases if items] or [FALSE]))
        for c, items in seg.cases:
            if len(items) > 1 or any(isinstance(x, Seg) for x in items):
                raise Unsupported("position in a segment with several items per element")
        lst = self.memo.setdefault(key, [])
        found = self.same_cond(seg.base, conds, lst)
        if found is not None:
            return found
        p = z3.Int(f"{seg.base.prefix('e')}.pos{len(lst)}{'r' if seg.rev else ''}")
        self.fact(p >= 0)
        self.fact(z3.Implies(z3.And(seg.base.ne, conds), p < self.count(seg.base, conds)))
        lst.append((conds, p))
        return p

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        "A formula (or Python bool) for a == b."
        if a is b and not isinstance(a, float):
            return TRUE
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(f"loop-carried value: {v.why}")
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            na, va = (a.none, a.val) if isinstance(a, SOpt) else ((TRUE if a is None else FALSE), a)
            nb, vb = (b.none, b.val) if isinstance(b, SOpt) else ((TRUE if b is None else FALSE), b)
            both = z3.And(na, nb)
            if va is None or vb is None:
                return both
            return z3.Or(both, z3.And(z3.Not(na), z3.Not(nb), self.eq(va, vb)))
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return self.as_z3(a) == self.as_z3(b)
            return FALSE
        if isinstance(a, SInt) or isinstance(b, SInt):
            x, y = self.as_int(a), self.as_int(b)
            if x is None or y is None:
                return FALSE
            return x == y
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            return self.eq_text(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return a.e == b.e
            o, x = (a, b) if isinstance(a, Opaque) else (b, a)
            if o.cls is object:
                return o.e == self.obj_term(x)
            if not isinstance(x, o.cls) and not issubclass(o.cls, type(x)):
                return FALSE
            return o.e == self.obj_term(x)
        if isinstance(a, (SStr,)) or isinstance(b, (SStr,)):
            return FALSE
        if isinstance(a, (Seq, list, tuple, set)) and isinstance(b, (Seq, list, tuple, set)):
            return self.eq_seq(a, b)
        if isinstance(a, SDict) or isinstance(b, SDict) or (isinstance(a, dict) and isinstance(b, dict)):
            return self.eq_dict(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return FALSE if (a is None or b is None) else self._unsup(f"comparison of {type(a)} and {type(b)}")
        # ordinary objects
        if a is None or b is None:
            return TRUE if a is b else FALSE
        for x, y in ((a, b), (b, a)):
            cls = type(x)
            if cls.__module__ == "builtins":
                continue
            m = inspect.getattr_static(cls, "__eq__", None)
            if m is object.__eq__ or m is None:
                continue
            if isinstance(m, types.FunctionType):
                if source.interpretable(m):
                    r = self.call(BoundMethod(x, m), [y], {})
                    if r is NotImplemented:
                        continue
                    return self.as_z3(r)
                if m.__code__.co_filename == "<string>" and dataclasses.is_dataclass(cls):
                    if type(y) is not cls:
                        continue
                    return z3.And(*[
                        self.eq(self.getattr(x, f.name), self.getattr(y, f.name))
                        for f in dataclasses.fields(cls) if f.compare
                    ] or [TRUE])
            break
        if self.has_sym(a) or self.has_sym(b):
            return TRUE if a is b else FALSE
        return TRUE if a == b else FALSE

    def _unsup(self, why):
        raise Unsupported(why)

    def eq_text(self, a, b):
        x, y = list(pieces_of(a)), list(pieces_of(b))
        while x and y:
            p, q = x[0], y[0]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    return FALSE
                x[0:1] = [p[n:]] if p[n:] else []
                y[0:1] = [q[n:]] if q[n:] else []
            elif not isinstance(p, str) and not isinstance(q, str) and p.e.eq(q.e):
                x.pop(0)
                y.pop(0)
            else:
                break
        while x and y:
            p, q = x[-1], y[-1]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if p[len(p) - n:] != q[len(q) - n:]:
                    return FALSE
                x[-1:] = [p[: len(p) - n]] if p[: len(p) - n] else []
                y[-1:] = [q[: len(q) - n]] if q[: len(q) - n] else []
            elif not isinstance(p, str) and not isinstance(q, str) and p.e.eq(q.e):
                x.pop()
                y.pop()
            else:
                break
        if not x and not y:
            return TRUE
        if not x or not y:
            rest = SStr(x or y)
            return z3.Not(self.nonempty_text(rest))
        if len(x) == 1 and len(y) == 1 and not isinstance(x[0], str) and not isinstance(y[0], str):
            p, q = x[0], y[0]
            if p.kind == q.kind == "join":
                return self.eq_join(p, q)
        return self.term(SStr(x)) == self.term(SStr(y))

    def eq_join(self, p, q):
        (s1, a), (s2, b) = p.arg, q.arg
        e = p.e == q.e
        if s1 == s2:
            same = self.same_seq(a, b)
            if same is not None:
                atom = z3.Bool(self.fresh("joineq"))
                # sound one way: equal sequences give equal texts
                return z3.Or(z3.And(atom, e), self._goal_or_atom(same, e))
        return e

    def _goal_or_atom(self, same, e):
        return e if not self.goal_mode else z3.Or(e, same)

    goal_mode = False

    def as_int(self, v):
        if isinstance(v, SInt):
            return v.e
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return z3.IntVal(v)
        return None

    def items_of(self, v):
        if isinstance(v, (Seq, SDict)):
            self.note_read(v)
            return v.items
        return list(v)

    def mapping_items(self, v):
        "The items of an object that is a mapping by having keys, each key a constant; None if it has none."
        keys = inspect.getattr_static(type(v), "keys", None)
        if not source.interpretable(keys):
            return None
        keys = self.to_seq(self.call(BoundMethod(v, keys), [], {}))
        if not all(isinstance(k, str) for k in keys):
            raise Unsupported("a mapping with symbolic keys")
        get = inspect.getattr_static(type(v), "__getitem__")
        return [(k, self.call(BoundMethod(v, get), [k], {})) for k in keys]

    def apart(self, x, y):
        "The items of x, its segments split into first item and rest where the other sequence has them split."
        from .builtins_ import split_first

        out = list(x)
        bases = [i.base for i in y if isinstance(i, Seg)]
        n = 0
        while n < len(out):
            i = out[n]
            if isinstance(i, Seg) and not i.rev and not any(i.base is b for b in bases):
                if ("tail", i.base.name) in self.memo and self.known(self.seg_nonempty(i)):
                    first, rest = split_first(self, [i])
                    out[n:n + 1] = [first, *rest]
            n += 1
        return out

    def eq_seq(self, a, b):
        ka = a.kind if isinstance(a, Seq) else type(a).__name__
        kb = b.kind if isinstance(b, Seq) else type(b).__name__
        if ka != kb and not (isinstance(a, (list, Seq)) and isinstance(b, (list, Seq)) and {ka, kb} <= {"list", "StatementList"}):
            return FALSE
        x, y = self.items_of(a), self.items_of(b)
        if not any(isinstance(i, Seg) for i in x) and not any(isinstance(i, Seg) for i in y):
            if ka == "set":
                raise Unsupported("comparison of symbolic sets")
            if len(x) != len(y):
                return FALSE
            return z3.And(*[self.eq(p, q) for p, q in zip(x, y)] or [TRUE])
        if ka == "set" and self.goal_mode:
            for f in (self.same_items(x, y), self.included(x, y, True)):
                if f is not None and self.check(z3.Not(f)) == z3.unsat:
                    return f
            raise Unsupported("comparison of symbolic sets")
        x, y = self.apart(x, y), self.apart(y, x)
        same = self.same_items(x, y)
        if self.goal_mode:
            return same if same is not None else FALSE
        atom = z3.Bool(self.fresh("seqeq"))
        if same is not None:
            self.fact(z3.Implies(atom, same))
        return atom

    def leaves(self, items, conds=(), bases=()):
        "The items of nested segments: the conditions they are there under, the elements they depend on."
        for i in items:
            if isinstance(i, Seg):
                self.canon(i.base)
                for c, xs in i.cases:
                    yield from self.leaves(xs, (*conds, i.base.ne, c), (*bases, i.base))
            else:
                yield conds, bases, i

    def included(self, x, y, both=False):
        "A sufficient condition for every item of x to be among those of y."
        xs, ys = list(self.leaves(x)), list(self.leaves(y))
        out = []
        for c, b, v in xs:
            alike = [(d, w) for d, a, w in ys if all(any(k is m for m in b) for k in a)]
            out.append(z3.Implies(z3.And(*c, TRUE), z3.Or(FALSE, *[z3.And(*d, self.eq(v, w)) for d, w in alike])))
        f = z3.And(TRUE, *out)
        return z3.And(f, self.included(y, x)) if both else f

    def same_seq(self, a, b):
        return self.same_items(self.items_of(a), self.items_of(b))

    def same_items(self, x, y):
        """
        A formula that is valid exactly if (arbitrary elements being canonical) the two sequences agree; None if
        their segments cannot be aligned. To be used as a goal or as a consequence only, never negated.
        """
        x = [i for i in x if not (isinstance(i, Seg) and not i.cases)]
        y = [i for i in y if not (isinstance(i, Seg) and not i.cases)]
        out = []
        i = j = 0
        while i < len(x) or j < len(y):
            p = x[i] if i < len(x) else MISSING
            q = y[j] if j < len(y) else MISSING
            if isinstance(p, Seg) and isinstance(q, Seg) and p.base is q.base and p.rev == q.rev:
                f = self.same_cases(p, q)
                if f is None:
                    return None
                out.append(f)
                i += 1
                j += 1
            elif isinstance(p, Seg) and not (isinstance(q, Seg) and self.later(p, y[j + 1:]) and not self.later(q, x[i + 1:])):
                out.append(z3.Not(self.seg_nonempty(p)))
                i += 1
            elif isinstance(q, Seg):
                out.append(z3.Not(self.seg_nonempty(q)))
                j += 1
            elif p is MISSING or q is MISSING:
                return FALSE
            else:
                out.append(self.eq(p, q))
                i += 1
                j += 1
        return z3.And(*out) if out else TRUE

    @staticmethod
    def later(p, items):
        return any(isinstance(i, Seg) and i.base is p.base and i.rev == p.rev for i in items)

    def same_cases(self, p, q):
        base = p.base
        self.canon(base)
        fs = []
        cp = [(c, [x for x in items]) for c, items in p.cases if items]
        cq = [(c, [x for x in items]) for c, items in q.cases if items]
        anyp = z3.Or(*[c for c, _ in cp] or [FALSE])
        anyq = z3.Or(*[c for c, _ in cq] or [FALSE])
        # cases whose items may all be empty nested segments are handled by the recursion below
        for c, items in cp:
            if not any(isinstance(x, Seg) for x in items):
                fs.append(z3.Implies(c, anyq))
        for d, items in cq:
            if not any(isinstance(x, Seg) for x in items):
                fs.append(z3.Implies(d, anyp))
        for c, xi in cp:
            for d, yi in cq:
                if self.check(base.ne, c, d) == z3.unsat:
                    continue
                self.push()
                self.solver.add(base.ne, c, d)
                try:
                    f = self.same_items(xi, yi)
                finally:
                    self.pop()
                fs.append(z3.Implies(z3.And(c, d), f))
        return z3.Implies(base.ne, z3.And(*fs)) if fs else TRUE

    def eq_dict(self, a, b):
        x = a.items if isinstance(a, SDict) else list(a.items()) if isinstance(a, dict) else None
        y = b.items if isinstance(b, SDict) else list(b.items()) if isinstance(b, dict) else None
        if x is None or y is None:
            return FALSE
        if not any(isinstance(i, Seg) for i in x + y):
            if len(x) != len(y):
                return FALSE
            conj = []
            for k, v in x:
                conj.append(z3.Or(*[z3.And(self.eq(k, k2), self.eq(v, v2)) for k2, v2 in y] or [FALSE]))
            return z3.And(*conj) if conj else TRUE
        same = self.same_items(x, y)
        if self.goal_mode:
            return same if same is not None else FALSE
        key = ("dicteq", self._dict_key(x), self._dict_key(y))
        atom = self.memo.get(key)
        if atom is None:
            atom = z3.Bool(self.fresh("dicteq"))
            self.memo[key] = atom
            self.dict_eq_facts(atom, x, y)
            if same is not None and self.valid(same):
                self.fact(atom)
        return atom

    def _dict_key(self, items):
        out = []
        for i in items:
            if isinstance(i, Seg):
                out.append((i.base.name, str(i.cases)))
            else:
                out.append((self.term(i[0]).sexpr() if isinstance(i[0], (str, SStr)) else repr(i[0]), id(i[1])))
        return tuple(out)

    def dict_eq_facts(self, atom, x, y):
        "Equal dictionaries have equal values under equal (identifiable) keys."
        units_x = [i for i in x if not isinstance(i, Seg)]
        units_y = [i for i in y if not isinstance(i, Seg)]
        for k, v in units_x:
            hit = [self.eq(k, k2) for k2, _ in units_y]
            mems = [self._seg_has(i, k) for i in y if isinstance(i, Seg)]
            self.fact(z3.Implies(atom, z3.Or(*hit, *mems) if (hit or mems) else FALSE))
            for k2, v2 in units_y:
                self.fact(z3.Implies(z3.And(atom, self.eq(k, k2)), self.eq(v, v2)))
        for k2, v2 in units_y:
            hit = [self.eq(k, k2) for k, _ in units_x]
            mems = [self._seg_has(i, k2) for i in x if isinstance(i, Seg)]
            self.fact(z3.Implies(atom, z3.Or(*hit, *mems) if (hit or mems) else FALSE))

    # ------------------------------------------------------------------ dictionaries
    def _seg_has(self, seg, key):
        "Formula: the key occurs in a dictionary segment."
        ors = []
        t = self.term(key)
        base = seg.base
        el = self.canon(base)
        ck = base.key(el) if base.key else None
        if ck is None:
            raise Unsupported("membership in an unkeyed segment")
        for c, items in seg.cases:
            for it in items:
                k = it[0] if isinstance(it, tuple) else it
                if not self.term(k).eq(self.term(ck)):
                    raise Unsupported("membership by a derived key")
                if t.eq(self.term(ck)):
                    ors.append(z3.And(base.ne, c))
                else:
                    if z3.is_true(z3.simplify(c)):
                        ors.append(self.has(base, t))
                    else:
                        el2, prefix = self.at(base, t)
                        ors.append(z3.And(self.has(base, t), self.transfer(c, base.prefix("e"), prefix)))
        return z3.Or(*ors) if ors else FALSE

    def at(self, base, t):
        "The element of the base that has the key (if the key is a member)."
        while getattr(base, "perm_of", None) is not None:
            base = base.perm_of
        if z3.is_const(t):
            for el, prefix in [(self.canon(base), base.prefix("e"))] + list(base.instances.values()):
                if t.eq(self.term(base.key(el))):
                    return el, prefix
        k = ("at", base.name, t.sexpr())
        n = self.memo.get(k)
        if n is None:
            n = self.memo[k] = len(self.at_terms)
        tag = f"at#{n}"
        new = ("inst", base.name, tag) not in base.instances
        el, prefix = self.instance(base, tag)
        self.at_terms[prefix] = (base, t)
        if new:
            self.fact(z3.Implies(self.mem(base)(t), self.term(base.key(el)) == t))
            self.fact(z3.Implies(self.mem(base)(t), base.ne))
        return el, prefix

    def dict_contains(self, d, key):
        self.note_read(d)
        if isinstance(key, SOpt):
            return z3.And(z3.Not(key.none), self.dict_contains(d, key.val))
        ors = []
        for i in d.items:
            if isinstance(i, Seg):
                if isinstance(key, (str, SStr)):
                    ors.append(self._seg_has(i, key))
                else:
                    raise Unsupported("membership of a non-text in a dictionary segment")
            else:
                ors.append(self.eq(i[0], key))
        return z3.Or(*ors) if ors else FALSE

    def dict_get(self, d, key):
        "Returns the value under the key, or MISSING (forks)."
        self.note_read(d)
        if isinstance(key, SOpt):
            key = self.force(key)
        for i in d.items:
            if isinstance(i, Seg):
                if self.choose(self._seg_has(i, key)):
                    return self.seg_value(i, key)
            elif self.choose(self.eq(i[0], key)):
                return i[1]
        return MISSING

    def seg_value(self, seg, key):
        base = seg.base
        el = self.canon(base)
        t = self.term(key)
        same = t.eq(self.term(base.key(el)))
        for c, items in seg.cases:
            for k, v in items:
                if same:
                    if self.choose(c):
                        return v
                else:
                    inst, prefix = self.at(base, t)
                    if self.choose(self.transfer(c, base.prefix("e"), prefix)):
                        if v is el:
                            return inst
                        memo = {}
                        self.parallel(el, inst, memo)
                        return self.rename(v, base.prefix("e"), prefix, memo)
        raise Infeasible()

    def dict_set(self, d, key, value):
        for n, i in enumerate(d.items):
            if isinstance(i, Seg):
                if self.choose(self._seg_has(i, key)):
                    raise Unsupported("overwriting an unidentified dictionary entry")
            elif self.choose(self.eq(i[0], key)):
                self.trail.append(("dset", d, d.items))
                d.items = d.items[:n] + [(i[0], value)] + d.items[n + 1:]
                return
        self.trail.append(("dset", d, d.items))
        d.items = d.items + [(key, value)]

    def dict_pop(self, d, key):
        for n, i in enumerate(d.items):
            if isinstance(i, Seg):
                if self.choose(self._seg_has(i, key)):
                    raise Unsupported("removing an unidentified dictionary entry")
            elif self.choose(self.eq(i[0], key)):
                self.trail.append(("dset", d, d.items))
                d.items = d.items[:n] + d.items[n + 1:]
                return i[1]
        return MISSING

    # ------------------------------------------------------------------ sequences
    def note_read(self, v):
        if getattr(v, "noread", False):
            raise Unsupported("read of an accumulator inside of the loop that builds it")
        if self.reads is not None:
            self.reads.append(v)

    def append(self, seq, item):
        self.trail.append(("append", seq, seq.items))
        seq.items = seq.items + [item]

    def to_seq(self, v, kind=None):
        "The items of any iterable value, as a list of items and segments."
        if isinstance(v, SOpt):
            v = self.force(v)
        if isinstance(v, Seq):
            self.note_read(v)
            if v.items and isinstance(v.items[0], Poison):
                self.force(v.items[0])
            if v.kind == "iter":
                items = v.items
                self.trail.append(("items", v, items))
                v.items = []
                return items
            return v.items
        if isinstance(v, SDict):
            self.note_read(v)
            return self.map_items(v.items, lambda kv: kv[0])
        if isinstance(v, SStr):
            raise Unsupported("iteration over the characters of a symbolic text")
        if isinstance(v, Opaque):
            raise PyRaise(TypeError("object is not iterable")) if False else Unsupported("iteration of an opaque object")
        if isinstance(v, Poison):
            raise Unsupported(f"loop-carried value: {v.why}")
        if isinstance(v, Sym):
            raise PyRaise(TypeError(f"{type(v).__name__} is not iterable"))
        m = inspect.getattr_static(type(v), "__iter__", None)
        if m is not None and source.interpretable(m):
            return self.to_seq(self.call(BoundMethod(v, m), [], {}))
        m = inspect.getattr_static(type(v), "__aiter__", None)
        if m is not None and source.interpretable(m):
            return self.to_seq(self.call(BoundMethod(v, m), [], {}))
        if hasattr(v, "_pyvc_items"):
            return v._pyvc_items
        try:
            return list(v)
        except TypeError as e:
            raise PyRaise(e)

    def map_items(self, items, f):
        "Maps a total function that does not branch."
        out = []
        for i in items:
            if isinstance(i, Seg):
                out.append(Seg(i.base, [(c, tuple(self.map_items(x, f))) for c, x in i.cases], i.rev))
            else:
                out.append(f(i))
        return out

    # ------------------------------------------------------------------ loops
    def run_loop(self, items, body):
        """
        Runs the body on each item; items may contain segments. Raises BreakEx/ReturnEx/PyRaise as the body does.
        """
        for it in items:
            if isinstance(it, Seg):
                self.loop_seg(it, body)
            else:
                self.body_once(body, it)

    def body_once(self, body, item):
        try:
            body(item)
        except ContinueEx:
            pass

    def loop_seg(self, seg, body):
        base = seg.base
        self.canon(base)
        if base in self.active:
            raise Unsupported("iteration over a sequence inside of an iteration over the same sequence")
        alts = []
        saved_reads = self.reads
        self.active.append(base)
        try:
            self._loop_alts(seg, body, alts, saved_reads)
        finally:
            self.active.pop()
        self.reads = saved_reads
        normal = [a for a in alts if a[2][0] == "normal"]
        abrupt = [a for a in alts if a[2][0] != "normal"]
        if abrupt:
            trig = z3.Or(*[c for c, _, _ in abrupt])
            atom = self.exists(base, trig)
            if self.choose(atom):
                self.first_match(seg, normal, abrupt, trig)
                return
            self.add_fact_on_base(base, z3.Not(trig))
        self.apply_normal(seg, normal)

    def _loop_alts(self, seg, body, alts, saved_reads):
        base = seg.base
        for cond, items in seg.cases:
            def thunk():
                self.solver.add(base.ne)
                self.add(cond)
                if self.check() == z3.unsat:
                    raise Infeasible()
                mark = len(self.trail)
                serial = self.serial
                self.reads = []
                outcome = ("normal", None)
                try:
                    self.run_loop(items if not seg.rev else items, body)
                except BreakEx:
                    outcome = ("break", None)
                except ReturnEx as r:
                    outcome = ("return", r.value)
                except PyRaise as p:
                    outcome = ("raise", p.value)
                eff = self.effects(mark, serial, items)
                for s in eff["append"]:
                    if any(r is s for r in self.reads) and not self._only_growth_ok(s):
                        raise Unsupported("the loop body reads the list it builds")
                reads = self.reads
                return eff, outcome, reads

            found = list(self.explore(thunk))
            for conds, (eff, outcome, reads) in found:
                if eff["local"] and (len(found) > 1 or outcome[0] != "normal"):
                    raise Unsupported("loop body changes an element on some conditions only")
                alts.append((z3.simplify(z3.And(*conds) if conds else TRUE), eff, outcome))
                if saved_reads is not None:
                    saved_reads.extend(reads)

    def _only_growth_ok(self, s):
        return False

    def add_fact_on_base(self, base, f):
        old = getattr(base, "facts", [])
        base.facts = old + [z3.Implies(base.ne, f)]
        self.trail.append(("call", lambda: setattr(base, "facts", old)))
        self.add(z3.Implies(base.ne, f))

    def effects(self, mark, serial, own=()):
        "The net effect of the trail since the mark on objects that existed before."
        app = {}
        order = []
        env = {}
        dsets = {}
        for entry in self.trail[mark:]:
            k = entry[0]
            if k == "append":
                seq = entry[1]
                if seq.birth <= serial:
                    if id(seq) not in app:
                        app[id(seq)] = (seq, entry[2])
                        order.append(seq)
            elif k == "items":
                seq = entry[1]
                if seq.birth <= serial:
                    app.setdefault(("items", id(seq)), (seq, entry[2]))
            elif k == "env":
                _, e, name, old = entry
                if (id(e), name) not in env:
                    env[(id(e), name)] = (e, name)
            elif k == "attr":
                _, obj, name, old = entry
                if self.births.get(id(obj), 0) <= serial:
                    if not (name in obj.__dict__ and obj.__dict__[name] is old):
                        raise Unsupported(f"loop body assigns attribute {name}")
            elif k == "dset":
                d = entry[1]
                if d.birth <= serial and id(d) not in dsets:
                    dsets[id(d)] = (d, entry[2])
        appended = []
        local = []
        for key, (seq, old) in app.items():
            if isinstance(key, tuple):
                if seq.items is not old and seq.items != old:
                    if any(seq is x for x in own):
                        # a collection that is the element itself: every element is changed in the same way
                        local.append((seq, seq.items))
                        continue
                    raise Unsupported("loop body consumes an iterator or mutates a list")
                continue
            new = seq.items
            if len(new) < len(old) or any(a is not b for a, b in zip(old, new)):
                raise Unsupported("loop body replaces list items")
            appended.append((seq, new[len(old):]))
        dadd = []
        for d, old in dsets.values():
            new = d.items
            if len(new) < len(old) or any(a is not b for a, b in zip(old, new)):
                raise Unsupported("loop body replaces dictionary entries")
            dadd.append((d, new[len(old):]))
        envw = [(e, name, e.vars.get(name, MISSING)) for e, name in env.values()]
        return {"append": [s for s, _ in appended], "items": appended, "dict": dadd, "env": envw, "local": local}

    def apply_normal(self, seg, normal):
        base = seg.base
        for c, eff, _ in normal:
            for s, items in eff.get("local", ()):
                self.trail.append(("items", s, s.items))
                s.items = items
        targets = []
        for c, eff, _ in normal:
            for s, _ in eff["items"]:
                if not any(s is t for t in targets):
                    targets.append(s)
        for t in targets:
            cases = []
            for c, eff, _ in normal:
                for s, items in eff["items"]:
                    if s is t and items:
                        cases.extend(self.flat_cases(c, items))
            if t.kind == "set":
                pass
            self.append(t, Seg(base, cases, seg.rev))
        dtargets = []
        for c, eff, _ in normal:
            for d, _ in eff["dict"]:
                if not any(d is t for t in dtargets):
                    dtargets.append(d)
        for t in dtargets:
            cases = []
            for c, eff, _ in normal:
                for d, items in eff["dict"]:
                    if d is t and items:
                        cases.append((c, tuple(items)))
            self.trail.append(("dset", t, t.items))
            t.items = t.items + [Seg(base, cases, seg.rev)]
        # variables
        writes = {}
        for c, eff, _ in normal:
            for e, name, val in eff["env"]:
                writes.setdefault((id(e), name), (e, name, []))[2].append((c, val))
        for e, name, lst in writes.values():
            old = e.vars.get(name, MISSING)
            vals = [v for _, v in lst]
            first = vals[0]
            simple = isinstance(first, (bool, int, str, type(None))) and all(
                type(v) is type(first) and v == first for v in vals
            )
            if simple and old is not MISSING and not isinstance(old, Poison):
                hit = self.exists(base, z3.Or(*[c for c, _ in lst]))
                new = first
                if isinstance(old, (bool, SBool)) and isinstance(first, bool):
                    val = SBool(z3.simplify(z3.If(hit, self.as_z3(first), self.as_z3(old))))
                    self.setvar(e, name, self.simple(val))
                    continue
                if self.choose(hit):
                    self.setvar(e, name, new)
                continue
            if old is MISSING:
                self.setvar(e, name, Poison(f"{name} after the loop"))
            else:
                self.setvar(e, name, Poison(f"{name} after the loop"))

    def flat_cases(self, c, items):
        "Iterations over a sequence for the one element of a certain name: that element, if there is one."
        alts = [(c, ())]
        for x in items:
            opts = self.pinned(x) if isinstance(x, Seg) else None
            if opts is None:
                alts = [(d, xs + (x,)) for d, xs in alts]
            else:
                none = z3.Not(z3.Or(*[o for o, _ in opts]))
                alts = [(z3.And(d, o), xs + ys) for d, xs in alts for o, ys in opts] + [(z3.And(d, none), xs) for d, xs in alts]
        return [(z3.simplify(d), xs) for d, xs in alts if xs]

    def pinned(self, seg):
        "The items of a segment whose conditions determine the key of the element, as (condition, items)."
        out = []
        base = seg.base
        if base.key is None:
            return None
        ck = self.term(base.key(self.canon(base)))
        old = base.prefix("e")
        if not z3.is_const(ck):
            return None
        key = None
        for c, items in seg.cases:
            c = z3.simplify(c)
            hit = None
            cs = c.children() if z3.is_and(c) else [c]
            for i, f in enumerate(cs):
                if z3.is_eq(f):
                    for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                        if a.eq(ck) and not self.mentions(b, old):
                            hit = (b, cs[:i] + cs[i + 1:])
            if hit is None or key is not None and not key.eq(hit[0]) or any(isinstance(x, Seg) for x in items):
                return None
            key = hit[0]
            inst, prefix = self.at(base, key)
            memo = {}
            self.parallel(base.canon, inst, memo)
            ys = tuple(inst if x is base.canon else self.rename(x, old, prefix, memo) for x in items)
            out.append((z3.And(self.has(base, key), *[self.transfer(f, old, prefix) for f in hit[1]]), ys))
        return out

    def simple(self, v):
        if isinstance(v, SBool):
            s = z3.simplify(v.e)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
        if isinstance(v, SInt):
            s = z3.simplify(v.e)
            if z3.is_int_value(s):
                return s.as_long()
        return v

    def first_match(self, seg, normal, abrupt, trig):
        if any(eff.get("local") for _, eff, _ in normal):
            raise Unsupported("loop body changes elements and may stop early")
        "Some element triggers an abrupt exit: introduce the first such element and the elements before it."
        base = seg.base
        if base.key is not None and base.owner is not None:
            pass
        tag = self.fresh(f"first{len(base.instances)}")
        # elements before the first match
        pre = Base(f"{base.name}.{tag}.pre", base.make, base.key)
        pre_el = self.canon(pre)
        memo = {}
        self.parallel(self.canon(base), pre_el, memo)
        old, new = base.prefix("e"), pre.prefix("e")
        self.fact(z3.Implies(pre.ne, z3.Not(self.transfer(trig, old, new))))
        pre_normal = []
        for c, eff, out in normal:
            e2 = {"items": [(s, [self.rename(x, old, new, memo) for x in items]) for s, items in eff["items"]],
                  "dict": [(d, [self.rename(x, old, new, memo) for x in items]) for d, items in eff["dict"]],
                  "env": eff["env"], "append": eff["append"]}
            pre_normal.append((self.transfer(c, old, new), e2, out))
        has_effects = any(eff["items"] or eff["dict"] for _, eff, _ in normal)
        if has_effects:
            # variables written by earlier iterations are overwritten or lost below
            self.apply_normal(Seg(pre, [(TRUE, (pre_el,))], seg.rev),
                              [(c, {**e, "env": []}, o) for c, e, o in pre_normal])
        for c, eff, _ in normal:
            for e, name, val in eff["env"]:
                self.setvar(e, name, Poison(f"{name} before the first match"))
        w, prefix = self.instance(base, tag)
        memo = {}
        self.parallel(self.canon(base), w, memo)
        self.add(base.ne)
        if base.key is not None:
            self.add(self.mem(base)(self.term(base.key(w))))
        present = z3.Bool(f"{prefix}.present")
        self.add(present)
        self.memo.setdefault(("first", base.name), []).append(prefix)
        for c, atom in self.memo.get(("ex", base.name), []):
            self.fact(z3.Implies(z3.And(present, self.transfer(c, old, prefix)), atom))
        conds = [self.transfer(c, old, prefix) for c, _, _ in abrupt]
        i = self.choose_n(conds[:-1])
        if i is None:
            i = len(conds) - 1
            self.assume(conds[i])
        c, eff, (kind, val) = abrupt[i]
        for s, items in eff["items"]:
            for x in items:
                self.append(s, self.rename(x, old, prefix, memo))
        for d, items in eff["dict"]:
            self.trail.append(("dset", d, d.items))
            d.items = d.items + [self.rename(x, old, prefix, memo) for x in items]
        for e, name, v in eff["env"]:
            self.setvar(e, name, self.rename(v, old, prefix, memo) if v is not MISSING else Poison(name))
        if kind == "break":
            raise BreakEx()
        val = self.rename(val, old, prefix, memo)
        if kind == "return":
            raise ReturnEx(val)
        raise PyRaise(val)

    # ------------------------------------------------------------------ forcing
    def force(self, v):
        while isinstance(v, SOpt):
            if self.choose(v.none):
                return None
            v = v.val
        if isinstance(v, Poison):
            raise Unsupported(f"loop-carried value: {v.why}")
        return v

    def has_sym(self, v, depth=0, seen=None):
        if isinstance(v, Seq):
            return not (v.concrete() and not any(self.has_sym(i, depth + 1) for i in v.items)) if depth else True
        if isinstance(v, (Sym, BoundMethod, Closure, SymMethod, SuperProxy)):
            return True
        if isinstance(v, (str, int, float, bool, bytes, type(None), type, types.ModuleType, types.FunctionType)):
            return False
        if depth > 6:
            return False
        if seen is None:
            seen = set()
        if id(v) in seen:
            return False
        seen.add(id(v))
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(self.has_sym(i, depth + 1, seen) for i in v)
        if isinstance(v, dict):
            return any(self.has_sym(k, depth + 1, seen) or self.has_sym(x, depth + 1, seen) for k, x in v.items())
        if id(v) in self.births or isinstance(v, BaseException) or type(v).__module__.startswith(("pysqlsync", "contracts")):
            d = getattr(v, "__dict__", None)
            if isinstance(v, BaseException) and any(self.has_sym(a, depth + 1, seen) for a in v.args):
                return True
            if d:
                return any(self.has_sym(x, depth + 1, seen) for x in d.values())
        if isinstance(v, functools.partial):
            return self.has_sym(v.args, depth + 1, seen) or self.has_sym(v.keywords, depth + 1, seen)
        return False

    def native(self, v):
        "Turns interpreter containers without symbolic contents into native ones."
        if isinstance(v, Seq) and v.concrete():
            items = [self.native(i) for i in v.items]
            return {"list": list, "tuple": tuple, "set": set, "iter": iter}.get(v.kind, list)(items)
        if isinstance(v, SDict) and v.concrete():
            return {self.native(k): self.native(x) for k, x in v.items}
        if isinstance(v, tuple):
            return tuple(self.native(x) for x in v) if type(v) is tuple else v
        return v

    # ------------------------------------------------------------------ variables
    def setvar(self, env, name, value):
        self.trail.append(("env", env, name, env.vars.get(name, MISSING)))
        env.vars[name] = value

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                return v
            if e.parent is None:
                break
            e = e.parent
        g = env.globs
        if g is not None and name in g:
            if self.globals and (id(g), name) in self.globals:
                return self.globals[id(g), name]
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(f"name {name!r} is not defined"))

    def assign_name(self, env, name, value):
        e = env
        # comprehension scopes never assign here; nested functions declare nonlocal
        f = env
        while f.func == "comp" and f.parent is not None:
            f = f.parent
        if name in f.nonlocals:
            e = f.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("assignment to a global")
            self.setvar(e, name, value)
            return
        self.setvar(f, name, value)

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name, default=MISSING):
        obj = self.force(obj)
        if isinstance(obj, (SStr, Seq, SDict, SBool, SInt)):
            if name in ("__class__",):
                return self.pytype(obj)
            return SymMethod(obj, name)
        if isinstance(obj, str) and hasattr(str, name):
            return SymMethod(obj, name)
        if isinstance(obj, SuperProxy):
            return self.super_attr(obj, name)
        if isinstance(obj, Opaque):
            return self.opaque_attr(obj, name, default)
        if isinstance(obj, Closure):
            if name == "__name__":
                return obj.name
            raise Unsupported(f"attribute {name} of a function")
        if isinstance(obj, (list, dict, set, tuple)) and not isinstance(obj, type) and type(obj) in (list, dict, set, tuple):
            return SymMethod(obj, name)
        if isinstance(obj, (type, types.ModuleType)):
            try:
                v = getattr(obj, name)
            except AttributeError as e:
                if default is not MISSING:
                    return default
                raise PyRaise(e)
            if isinstance(obj, type):
                st = inspect.getattr_static(obj, name, None)
                if isinstance(st, classmethod):
                    return BoundMethod(obj, st.__func__)
            return v
        cls = type(obj)
        st = inspect.getattr_static(cls, name, MISSING)
        if isinstance(st, property):
            return self.call(st.fget, [obj], {})
        if isinstance(st, functools.cached_property):
            d = obj.__dict__
            if name in d:
                return d[name]
            return self.call(st.func, [obj], {})
        d = getattr(obj, "__dict__", None)
        if d is not None and name in d:
            return d[name]
        if isinstance(st, types.FunctionType):
            return BoundMethod(obj, st)
        if isinstance(st, staticmethod):
            return st.__func__
        if isinstance(st, classmethod):
            return BoundMethod(cls, st.__func__)
        if name == "__class__":
            return cls
        try:
            return getattr(obj, name)
        except AttributeError as e:
            if default is not MISSING:
                return default
            if lacks(obj, name):
                raise Unsupported(f"attribute {name} of a stand-in, {type(obj).__name__}")
            raise PyRaise(e)

    def super_attr(self, sp, name):
        obj = sp.obj
        cls = obj if isinstance(obj, type) else (self.opaque_class(obj) if isinstance(obj, Opaque) else type(obj))
        if isinstance(obj, Seq):
            cls = self.memo[("listclass", obj.kind)]
        mro = cls.__mro__
        start = mro.index(sp.cls) + 1
        for k in mro[start:]:
            if name in k.__dict__:
                st = k.__dict__[name]
                if k is list and isinstance(obj, Seq):
                    return NativeFn(lambda *a, **kw: self.sym_methods["base"](self, obj, name, list(a), kw))
                if isinstance(st, property):
                    return self.call(st.fget, [obj], {})
                if isinstance(st, staticmethod):
                    return st.__func__
                if isinstance(st, classmethod):
                    return BoundMethod(cls, st.__func__)
                return BoundMethod(obj, st)
        raise PyRaise(AttributeError(name))

    def setattr(self, obj, name, value):
        obj = self.force(obj)
        if isinstance(obj, Opaque):
            raise Unsupported("assignment to an attribute of an opaque object")
        if isinstance(obj, Sym):
            raise Unsupported("assignment to an attribute of a symbolic value")
        cls = type(obj)
        st = inspect.getattr_static(cls, name, None)
        if isinstance(st, property):
            if st.fset is None:
                raise PyRaise(AttributeError(name))
            self.call(st.fset, [obj, value], {})
            return
        d = getattr(obj, "__dict__", None)
        if d is None or isinstance(obj, (type, types.ModuleType)):
            if not self.has_sym(value):
                setattr(obj, name, value)
                return
            raise Unsupported(f"assignment to {cls.__name__}.{name}")
        params = getattr(cls, "__dataclass_params__", None)
        if params is not None and params.frozen:
            raise PyRaise(dataclasses.FrozenInstanceError(f"cannot assign to field {name!r}"))
        if not isinstance(inspect.getattr_static(cls, "__setattr__", None), (types.WrapperDescriptorType, type(None))):
            setattr(obj, name, value)
            return
        self.trail.append(("attr", obj, name, d.get(name, MISSING)))
        d[name] = value

    # opaque objects -----------------------------------------------------
    def is_pred(self, o, cls):
        if issubclass(o.cls, cls):
            return TRUE
        cands = o.attrs.get("$cands")
        if cands is not None:
            ors = [self.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e) for k in cands if issubclass(k, cls)]
            return z3.Or(*ors) if ors else FALSE
        if o.cls is not object and not issubclass(cls, o.cls) and not self._common_subclass(o.cls, cls):
            return FALSE
        p = self.fn(f"is:{cls.__qualname__}", Obj, z3.BoolSort())(o.e)
        asked = o.attrs.setdefault("$asked", [])
        if cls not in asked:
            for k in asked:
                q = self.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e)
                if issubclass(cls, k):
                    self.fact(z3.Implies(p, q))
                elif issubclass(k, cls):
                    self.fact(z3.Implies(q, p))
                elif not self._common_subclass(cls, k):
                    self.fact(z3.Not(z3.And(p, q)))
            asked.append(cls)
        return p

    @staticmethod
    def _common_subclass(a, b):
        if a is object or b is object:
            return True
        try:
            sub = set(Engine._subs(a))
            return any(s in sub for s in Engine._subs(b))
        except TypeError:
            return True

    @staticmethod
    def _subs(c):
        out = [c]
        try:
            subs = c.__subclasses__()
        except TypeError:
            return out
        for s in subs:
            out.extend(Engine._subs(s))
        return out

    def opaque_class(self, o):
        "Decides the class of an opaque object with known candidate classes."
        cands = o.attrs.get("$cands")
        if cands is None:
            return o.cls
        i = self.choose_n([self.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e) for k in cands[:-1]])
        return cands[i] if i is not None else cands[-1]

    def opaque_attr(self, o, name, default):
        if name in o.attrs:
            v = o.attrs[name]
            return v
        classes = []
        if o.attrs.get("$cands") is not None:
            classes = [self.opaque_class(o)]
        else:
            for k in reversed(o.attrs.get("$asked", [])):
                if self.known(self.is_pred(o, k)):
                    classes.append(k)
            classes.append(o.cls)
        for k in classes:
            st = inspect.getattr_static(k, name, MISSING)
            if isinstance(st, property):
                if source.interpretable(st.fget):
                    return self.call(st.fget, [o], {})
            if isinstance(st, types.FunctionType):
                return BoundMethod(o, st)
            try:
                ann = typing.get_type_hints(k).get(name, MISSING)
            except Exception:
                ann = MISSING
            if ann is not MISSING:
                v = self.from_annotation(ann, f"{o.e}.{name}")
                o.attrs[name] = v
                return v
        if default is not MISSING:
            return default
        if name in ("__class__",):
            raise Unsupported("class of an opaque object")
        raise Unsupported(f"attribute {name} of opaque {o.cls.__name__}")

    def from_annotation(self, ann, name):
        origin = typing.get_origin(ann)
        args = typing.get_args(ann)
        if ann is str:
            return SStr([Atom(z3.Const(name, Text))])
        if ann is int:
            return SInt(z3.Int(name))
        if ann is bool:
            return SBool(z3.Bool(name))
        if origin is typing.Union and type(None) in args:
            rest = [a for a in args if a is not type(None)]
            if len(rest) == 1:
                return SOpt(z3.Bool(f"{name}.none"), self.from_annotation(rest[0], name))
        if origin in (list, tuple) and args:
            elem = args[0]
            base = Base(name, lambda p: self.from_annotation(elem, p))
            return self.seq_of(base, "list" if origin is list else "tuple")
        if isinstance(ann, type):
            return Opaque(z3.Const(name, Obj), ann)
        return Opaque(z3.Const(name, Obj), object)

    def seq_of(self, base, kind="list"):
        el = self.canon(base)
        return self.new_seq([Seg(base, [(TRUE, (el,))])], kind)

    def pytype(self, v):
        if isinstance(v, SStr):
            return str
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, Seq):
            return {"list": list, "tuple": tuple, "set": set, "iter": types.GeneratorType,
                    "aiter": types.AsyncGeneratorType}.get(v.kind, list)
        if isinstance(v, SDict):
            return dict
        if isinstance(v, Closure):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, Opaque):
            if v.attrs.get("$exact"):
                return v.cls
            if v.attrs.get("$cands"):
                return self.opaque_class(v)
            raise Unsupported("exact class of an opaque object")
        return type(v)

    def isinstance_(self, v, cls):
        "Formula or bool."
        if isinstance(v, SOpt):
            v = self.force(v)
        if isinstance(cls, tuple):
            return z3.Or(*[self.as_z3(self.isinstance_(v, c)) for c in cls])
        if isinstance(cls, types.UnionType):
            return z3.Or(*[self.as_z3(self.isinstance_(v, c)) for c in cls.__args__])
        if isinstance(v, Opaque):
            return self.is_pred(v, cls)
        if isinstance(v, Sym) or isinstance(v, (Closure, BoundMethod)):
            t = self.pytype(v)
            try:
                return TRUE if issubclass(t, cls) else FALSE
            except TypeError as e:
                raise PyRaise(e)
        try:
            return TRUE if isinstance(v, cls) else FALSE
        except TypeError as e:
            raise PyRaise(e)

    # ------------------------------------------------------------------ text
    def text(self, v):
        "str(v)"
        v = self.force(v)
        if isinstance(v, (str, SStr)):
            return v if not (isinstance(v, str) and type(v) is not str) else str(v)
        if isinstance(v, SInt):
            return SStr([Atom(self.fn("str_of_int", z3.IntSort(), Text)(v.e), "int", v)])
        if isinstance(v, SBool):
            return "True" if self.choose(v.e) else "False"
        if isinstance(v, Opaque):
            return self.opaque_text(v)
        if isinstance(v, (Seq, SDict, tuple, list, dict)) and self.has_sym(v):
            return SStr([Atom(z3.Const(self.fresh("repr"), Text))])
        if isinstance(v, Sym):
            raise Unsupported(f"text of {type(v).__name__}")
        m = inspect.getattr_static(type(v), "__str__", None)
        if isinstance(m, types.FunctionType) and (source.interpretable(m) or m in self.overrides):
            return self.call(BoundMethod(v, m), [], {})
        if self.has_sym(v):
            return SStr([Atom(z3.Const(self.fresh("str"), Text))])
        return str(v)

    def opaque_text(self, v):
        h = v.attrs.get("$str")
        if h is not None:
            return h
        if v.attrs.get("$cands") is not None:
            k = self.opaque_class(v)
            m = inspect.getattr_static(k, "__str__", None)
            if isinstance(m, types.FunctionType) and source.interpretable(m):
                return self.call(BoundMethod(v, m), [], {})
        e = self.fn(f"str_of_obj", Obj, Text)(v.e)
        return SStr([Atom(e, "type", v)])

    def join_text(self, sep, seq):
        items = self.items_of(seq) if isinstance(seq, (Seq, SDict)) else list(seq)
        if not any(isinstance(i, Seg) for i in items):
            out = []
            for n, i in enumerate(items):
                i = self.force(i)
                if not isinstance(i, (str, SStr)):
                    raise PyRaise(TypeError("sequence item: expected str instance"))
                if n:
                    out.append(sep)
                out.append(i)
            return rope(*out)
        frozen = Seq(items, "tuple")
        e = z3.Const(self.fresh("join"), Text)
        a = Atom(e, "join", (sep, frozen))
        self.fact((e == self.lit("")) == z3.Not(self.nonempty_text(SStr([a]))))
        return SStr([a])

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f) if isinstance(f, (SOpt, Poison)) else f
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, NativeFn):
            return f.f(*args, **kwargs)
        if isinstance(f, types.MethodWrapperType) and f.__name__ == "__getattribute__":
            return self.getattr(f.__self__, *args)
        if isinstance(f, SymMethod):
            return self.sym_methods["call"](self, f.obj, f.name, args, kwargs)
        if isinstance(f, Closure):
            return self.exec_function(f.node, f.name, args, kwargs, f.defaults, f.kwdefaults, f.env, f.globals, f.cls)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        try:
            h = self.overrides.get(f)
        except TypeError:
            h = None
        if h is not None:
            name = getattr(f, "__qualname__", str(f))
            r = h(self, *args, **kwargs)
            if r is not NotImplemented:
                self.contract_uses[name] = self.contract_uses.get(name, 0) + 1
                return r
        try:
            h = self.builtin_handlers.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if source.interpretable(f):
                return self.call_python(f, args, kwargs)
            if f.__name__ == "__init__" and f.__code__.co_filename == "<string>" and args:
                cls = type(args[0])
                if dataclasses.is_dataclass(cls):
                    return self.dataclass_init(args[0], f, cls, args[1:], kwargs)
            w = getattr(f, "__wrapped__", None)
            return self.call_native(f, args, kwargs)
        if isinstance(f, Opaque):
            fn = f.attrs.get("$call")
            if fn is not None:
                return fn(*args, **kwargs)
            if f.cls is object or True:
                ts = [self.obj_term(a) for a in args]
                app = self.fn(f"apply{len(ts)}", *([Obj] * (len(ts) + 2)))
                return Opaque(app(f.e, *ts), object)
        if isinstance(f, Sym):
            raise PyRaise(TypeError("object is not callable"))
        m = inspect.getattr_static(type(f), "__call__", None)
        if isinstance(m, types.FunctionType) and source.interpretable(m):
            return self.call(BoundMethod(f, m), args, kwargs)
        return self.call_native(f, args, kwargs)

    def call_native(self, f, args, kwargs):
        mod = getattr(f, "__module__", None) or ""
        owner = getattr(f, "__self__", None)
        import logging

        if isinstance(owner, logging.Logger) or (args and isinstance(args[0], logging.Logger) and mod == "logging"):
            return False if getattr(f, "__name__", "") == "isEnabledFor" else None
        if isinstance(owner, re.Pattern) and f.__name__ in ("match", "search", "fullmatch") and any(map(self.has_sym, args)):
            return self.builtin_handlers[getattr(re, f.__name__)](self, owner, *args)
        if any(self.has_sym(a) and not self._nativable(a) for a in list(args) + list(kwargs.values())) or (
            owner is not None and not isinstance(owner, types.ModuleType) and self.has_sym(owner)
        ):
            if isinstance(getattr(f, "__self__", None), bytes) and f.__name__ == "join" and len(args) == 1 and not kwargs:
                o = Opaque(z3.Const(self.fresh("bytes.join"), Obj), bytes)
                o.attrs["$joined"] = (f.__self__, self.new_seq(list(self.to_seq(args[0])), "list"))
                return o
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)} ({mod}) with symbolic arguments")
        nargs = [self.native(a) for a in args]
        nkw = {k: self.native(a) for k, a in kwargs.items()}
        try:
            r = f(*nargs, **nkw)
        except Unsupported:
            raise
        except (PyRaise, Infeasible):
            raise
        except Exception as e:
            raise PyRaise(e)
        return r

    def _nativable(self, a):
        if isinstance(a, Seq):
            return a.concrete() and not any(self.has_sym(i) and not self._nativable(i) for i in a.items)
        if isinstance(a, SDict):
            return a.concrete() and not any(
                (self.has_sym(k) and not self._nativable(k)) or (self.has_sym(v) and not self._nativable(v))
                for k, v in a.items
            )
        if isinstance(a, tuple):
            return all(not self.has_sym(x) or self._nativable(x) for x in a)
        return not self.has_sym(a)

    def call_python(self, f, args, kwargs):
        node = source.find(f)
        if node is None:
            raise Unsupported(f"no source for {f.__qualname__}")
        name = f"{f.__module__}.{f.__qualname__}"
        self.interpreted[name] = self.interpreted.get(name, 0) + 1
        env = None
        if f.__closure__:
            env = Env(None, f.__globals__)
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env.vars[n] = cell.cell_contents
                except ValueError:
                    pass
        return self.exec_function(node, f.__qualname__, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {},
                                  env, f.__globals__, None)

    def exec_function(self, node, name, args, kwargs, defaults, kwdefaults, parent, globs, cls):
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("recursion depth")
        try:
            env = Env(parent, globs, func=node, cls=cls)
            if parent is not None and "__class__" in parent.vars:
                env.cls = parent.vars["__class__"]
            try:
                self.bind(env, node, name, args, kwargs, defaults, kwdefaults)
            except PyRaise:
                if globs.get("__name__", "").startswith("contracts."):
                    raise Unsupported(f"a stand-in, {name}, called in another way")
                raise
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            gen, is_async = source.own_nodes_kinds(node)
            if gen:
                env.yields = self.new_seq([], "list")
            try:
                self.exec_block(node.body, env)
                result = None
            except ReturnEx as r:
                result = r.value
            if gen:
                return self.new_seq(env.yields.items, "aiter" if is_async else "iter")
            return result
        finally:
            self.depth = max(0, self.depth - 1)

    def bind(self, env, node, name, args, kwargs, defaults, kwdefaults):
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        args = list(args)
        for n, p in enumerate(pos):
            if n < len(args):
                if p in kwargs and p not in [x.arg for x in a.posonlyargs]:
                    raise PyRaise(TypeError(f"{name}() got multiple values for argument {p!r}"))
                vals[p] = args[n]
            elif p in kwargs:
                vals[p] = kwargs.pop(p)
            else:
                i = n - (len(pos) - len(defaults))
                if i >= 0:
                    vals[p] = defaults[i]
                else:
                    raise PyRaise(TypeError(f"{name}() missing 1 required positional argument: {p!r}"))
        extra = args[len(pos):]
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                vals[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                vals[p.arg] = kwdefaults[p.arg]
            else:
                raise PyRaise(TypeError(f"{name}() missing 1 required keyword-only argument: {p.arg!r}"))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict([(k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise(TypeError(f"{name}() got an unexpected keyword argument {next(iter(kwargs))!r}"))
        env.vars.update(vals)

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            init = inspect.getattr_static(cls, "__init__")
            obj = cls.__new__(cls)
            self.born(obj)
            if isinstance(init, types.FunctionType) and source.interpretable(init):
                self.call(BoundMethod(obj, init), args, kwargs)
            else:
                obj.args = tuple(args)
                if not any(self.has_sym(a) for a in args) and not kwargs:
                    try:
                        obj = cls(*[self.native(a) for a in args])
                        self.born(obj)
                    except Exception:
                        pass
            return obj
        mod = cls.__module__
        new = inspect.getattr_static(cls, "__new__", None)
        init = inspect.getattr_static(cls, "__init__", None)
        interp_init = isinstance(init, types.FunctionType) and source.interpretable(init)
        gen_init = (
            isinstance(init, types.FunctionType)
            and init.__code__.co_filename == "<string>"
            and dataclasses.is_dataclass(cls)
        )
        in_repo = mod.startswith(("pysqlsync", "contracts"))
        if in_repo and issubclass(cls, list):
            seq = self.new_seq([], "list")
            seq.kind = cls.__name__
            self.memo[("listclass", cls.__name__)] = cls
            if args:
                raise Unsupported("list subclass with arguments")
            return seq
        if in_repo and (interp_init or gen_init or init is object.__init__):
            if getattr(cls, "__abstractmethods__", None):
                raise PyRaise(TypeError(f"Can't instantiate abstract class {cls.__name__}"))
            obj = object.__new__(cls)
            self.born(obj)
            if interp_init:
                self.call(BoundMethod(obj, init), args, kwargs)
            elif gen_init:
                self.dataclass_init(obj, init, cls, args, kwargs)
            return obj
        if any(self.has_sym(a) and not self._nativable(a) for a in list(args) + list(kwargs.values())):
            if gen_init:
                obj = object.__new__(cls)
                self.born(obj)
                self.dataclass_init(obj, init, cls, args, kwargs)
                return obj
            raise Unsupported(f"construction of {cls.__qualname__} with symbolic arguments")
        return self.call_native(cls, args, kwargs)

    def dataclass_init(self, obj, init, cls, args, kwargs):
        # the generated __init__ may belong to a base class
        owner = next(k for k in cls.__mro__ if k.__dict__.get("__init__") is init)
        fields = [f for f in dataclasses.fields(owner) if f.init]
        kwargs = dict(kwargs)
        vals = {}
        positional = [f for f in fields if not f.kw_only]
        if len(args) > len(positional):
            raise PyRaise(TypeError(f"{cls.__name__}.__init__() takes too many arguments"))
        for f, v in zip(positional, args):
            vals[f.name] = v
        for f in fields:
            if f.name in vals:
                if f.name in kwargs:
                    raise PyRaise(TypeError(f"multiple values for {f.name}"))
                continue
            if f.name in kwargs:
                vals[f.name] = kwargs.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                vals[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                vals[f.name] = self.call(f.default_factory, [], {})
            else:
                raise PyRaise(TypeError(f"{cls.__name__}.__init__() missing argument: {f.name!r}"))
        if kwargs:
            raise PyRaise(TypeError(f"{cls.__name__}.__init__() got an unexpected keyword argument"))
        for k, v in vals.items():
            obj.__dict__[k] = v
        post = inspect.getattr_static(cls, "__post_init__", None)
        if post is not None:
            self.call(BoundMethod(obj, post), [], {})

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            cur = self.getattr(obj, t.attr)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            idx = self.eval(t.slice, env)
            cur = self.subscript(obj, idx)
        else:
            raise Unsupported("augmented assignment")
        rhs = self.eval(s.value, env)
        cur = self.force(cur)
        if isinstance(cur, Seq) and cur.kind not in ("tuple",) and isinstance(s.op, ast.Add):
            for i in self.to_seq(rhs):
                self.append(cur, i)
            return
        v = self.binop(s.op, cur, rhs)
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, v)
        else:
            self.setitem(obj, idx, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            items = self.to_seq(v)
            if any(isinstance(i, Seg) for i in items):
                if not (t.elts and isinstance(t.elts[-1], ast.Starred) and not any(isinstance(k, ast.Starred) for k in t.elts[:-1])):
                    raise Unsupported("unpacking a sequence of unknown length")
                from .builtins_ import split_first
                rest = list(items)
                for k in t.elts[:-1]:
                    r = split_first(self, rest)
                    if r is None:
                        raise PyRaise(ValueError("not enough values to unpack"))
                    first, rest = r
                    self.assign(k, first, env)
                self.assign(t.elts[-1].value, self.new_seq(rest), env)
                return
            if any(isinstance(e, ast.Starred) for e in t.elts):
                n = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - n - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:n], items[:n]):
                    self.assign(e, x, env)
                self.assign(t.elts[n].value, self.new_seq(items[n:len(items) - after]), env)
                for e, x in zip(t.elts[n + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    def setitem(self, obj, idx, v):
        obj = self.force(obj)
        if isinstance(obj, SDict):
            self.dict_set(obj, self.force(idx), v)
            return
        if isinstance(obj, Seq):
            if isinstance(idx, int) and obj.concrete():
                self.trail.append(("items", obj, obj.items))
                items = list(obj.items)
                try:
                    items[idx] = v
                except IndexError as e:
                    raise PyRaise(e)
                obj.items = items
                return
            raise Unsupported("item assignment")
        m = inspect.getattr_static(type(obj), "__setitem__", None)
        if isinstance(m, types.FunctionType) and source.interpretable(m):
            self.call(BoundMethod(obj, m), [idx, v], {})
            return
        if isinstance(obj, (dict, list)) and not self.has_sym(idx):
            if len(self.stack) > 1:
                raise Unsupported("native container mutated in a loop")
            obj[idx] = v
            return
        raise Unsupported("item assignment")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.trail.append(("env", env, t.id, env.vars.get(t.id, MISSING)))
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.force(self.eval(t.value, env))
                idx = self.force(self.eval(t.slice, env))
                if isinstance(obj, SDict):
                    if self.dict_pop(obj, idx) is MISSING:
                        raise PyRaise(KeyError(idx))
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = self.lookup_exc(env)
            if cur is None:
                raise PyRaise(RuntimeError("No active exception to reraise"))
            raise PyRaise(cur)
        v = self.force(self.eval(s.exc, env))
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, [], {})
        if not isinstance(v, BaseException):
            raise Unsupported("raise of a non-exception")
        if s.cause is not None:
            c = self.eval(s.cause, env)
            v.__cause__ = c if isinstance(c, BaseException) or c is None else None
        raise PyRaise(v)

    def lookup_exc(self, env):
        e = env
        while e is not None:
            if "$exc" in e.vars:
                return e.vars["$exc"]
            e = e.parent
        return None

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError())

    def x_Global(self, s, env):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(s.names)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Import(self, s, env):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                self.assign_name(env, a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, s, env):
        import importlib

        pkg = env.globs.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), package=pkg)
        for a in s.names:
            v = getattr(m, a.name, MISSING)
            if v is MISSING:
                v = importlib.import_module(f"{m.__name__}.{a.name}")
            self.assign_name(env, a.asname or a.name, v)

    def x_FunctionDef(self, s, env):
        f = Closure(s, env, env.globs, s.name,
                    tuple(self.eval(d, env) for d in s.args.defaults),
                    {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                    env.cls)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            if getattr(dec, "__name__", "") == "wraps" or isinstance(dec, functools.partial) and dec.func is functools.update_wrapper:
                continue
            v = self.call(dec, [v], {})
        self.assign_name(env, s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, env):
        raise Unsupported("nested class")

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        self.for_loop(s, it, env)

    x_AsyncFor = x_For

    def for_loop(self, s, it, env):
        items = self.to_seq(it)
        has_seg = any(isinstance(i, Seg) for i in items)

        def body(x):
            self.assign(s.target, x, env)
            self.exec_block(s.body, env)

        try:
            if not has_seg:
                for x in items:
                    self.body_once(body, x)
            else:
                names = [n for n in source.assigned_names(tuple(s.body)) if n in env.vars]
                for x in items:
                    if isinstance(x, Seg):
                        saved = {n: env.vars[n] for n in names if n in env.vars}
                        mark_env = dict(saved)
                        if self.loop_rule is not None and self.loop_rule.applies(self, env):
                            self.loop_rule.run(self, env, x, body)
                            continue
                        if self._carried(s.body, names):
                            raise Unsupported(f"loop-carried variable in {[n for n in names]}")
                        self.loop_seg(x, body)
                    else:
                        self.body_once(body, x)
        except BreakEx:
            return
        self.exec_block(s.orelse, env)

    @functools.lru_cache(maxsize=None)
    def _carried_static(self, body, names):
        return reads_before_write(body, frozenset(names))

    def _carried(self, body, names):
        return self._carried_static(tuple(body), tuple(sorted(names)))

    def x_While(self, s, env):
        n = 0
        while True:
            seg_iter = self.generic_iterator(env)
            if seg_iter is not None and not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(s.test)):
                # the condition does not consume items
                if not self.truth(self.eval(s.test, env)):
                    self.exec_block(s.orelse, env)
                    return
            if seg_iter is not None:
                self.while_over_iterator(s, env, seg_iter)
                continue
            if not self.truth(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return

    def generic_iterator(self, env):
        "An iterator variable whose remaining items start with a segment."
        # also in objects: file-like objects
        seen, level = [], list(env.vars.values())
        for _ in range(3):
            seen.extend(level)
            level = [x for v in level if hasattr(v, "__dict__") and self.births.get(id(v)) is not None for x in v.__dict__.values()]
        found = []
        for v in seen:
            if isinstance(v, Seq) and v.kind in ("iter", "aiter") and v.items and isinstance(v.items[0], Seg) and not any(v is f for f in found):
                found.append(v)
        return found[0] if len(found) == 1 else None

    rounds = {}

    def while_over_iterator(self, s, env, it):
        """
        A while loop that takes one item from an iterator per round, at a segment of it: the round is executed on
        the generic item; the segment is then replaced by its effect.
        """
        seg = it.items[0]
        rest = it.items[1:]
        code = s.body
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            if s.orelse:
                raise Unsupported("conditional while loop over an iterator")
            # the condition is evaluated in each round
            code = self.rounds.setdefault(id(s), (s, [ast.copy_location(ast.If(
                ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test), [ast.copy_location(ast.Break(), s)], []), s), *s.body]))[1]
        names = [n for n in source.assigned_names(tuple(code)) if n in env.vars]
        if self._carried(code, names):
            raise Unsupported("loop-carried variable in a while loop")

        def body(x):
            # x is the generic item: present it as the only remaining one
            old = it.items
            it.items = [x]
            mark = len(self.trail)
            try:
                self.exec_block(code, env)
                left = it.items
            finally:
                it.items = old
                self.trail[mark:] = [t for t in self.trail[mark:] if not (t[0] == "items" and t[1] is it)]
            if left:
                raise Unsupported("a round of the while loop does not consume exactly one item")

        self.loop_seg(seg, body)
        self.trail.append(("items", it, it.items))
        it.items = rest

    def x_Try(self, s, env):
        def run_final():
            self.exec_block(s.finalbody, env)

        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as p:
                handled = False
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        t = self.native(t) if isinstance(t, Seq) else t
                        ok = isinstance(p.value, t)
                    if ok:
                        handled = True
                        if h.name:
                            self.assign_name(env, h.name, p.value)
                        old = env.vars.get("$exc", MISSING)
                        env.vars["$exc"] = p.value
                        try:
                            self.exec_block(h.body, env)
                        except PyRaise as q:
                            if q.value is not p.value and q.value.__context__ is None:
                                q.value.__context__ = p.value
                            raise
                        finally:
                            if old is MISSING:
                                env.vars.pop("$exc", None)
                            else:
                                env.vars["$exc"] = old
                        break
                if not handled:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            run_final()
            raise
        run_final()

    def x_With(self, s, env, i=0):
        if i == len(s.items):
            self.exec_block(s.body, env)
            return
        item = s.items[i]
        is_async = isinstance(s, ast.AsyncWith)
        mgr = self.force(self.eval(item.context_expr, env))
        enter, leave = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        if isinstance(mgr, Seq):
            raise Unsupported("generator-based context manager")
        v = self.call(self.getattr(mgr, enter), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        try:
            self.x_With(s, env, i + 1)
        except PyRaise as p:
            r = self.call(self.getattr(mgr, leave), [type(p.value), p.value, None], {})
            if not self.truth(r):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(self.getattr(mgr, leave), [None, None, None], {})
            raise
        self.call(self.getattr(mgr, leave), [None, None, None], {})

    x_AsyncWith = x_With

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = self.lookup(env, e.id)
        if isinstance(v, Poison):
            raise Unsupported(f"loop-carried value: {v.why}")
        return v

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign_name(env, e.target.id, v)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        items = self.elements(e.elts, env)
        if any(isinstance(i, Seg) for i in items):
            return self.new_seq(items, "tuple")
        return tuple(items)

    def e_List(self, e, env):
        return self.new_seq(self.elements(e.elts, env), "list")

    def e_Set(self, e, env):
        return self.new_seq(self.elements(e.elts, env), "set")

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_seq(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, env))
                if isinstance(o, SDict):
                    entries = o.items
                elif isinstance(o, dict):
                    entries = list(o.items())
                else:
                    entries = self.mapping_items(o)
                    if entries is None:
                        raise Unsupported("** of a non-dict")
                for it in entries:
                    if isinstance(it, Seg):
                        d.items.append(it)
                    else:
                        self.dict_set(d, it[0], it[1])
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        v = self.eval(vals[0], env)
        for nxt in vals[1:]:
            if isinstance(v, SBool) and self._pure(nxt):
                # formulas without side effects or failures: no fork
                pass
            t = self.truth(v)
            if is_and and not t:
                return self.simple_false(v)
            if not is_and and t:
                return self.truthy_value(v)
            v = self.eval(nxt, env)
        return v

    def simple_false(self, v):
        if isinstance(v, SBool):
            return False
        if isinstance(v, SOpt):
            return self.force(v)
        return v

    def truthy_value(self, v):
        if isinstance(v, SBool):
            return True
        if isinstance(v, SOpt):
            return self.force(v)
        return v

    def _pure(self, n):
        return False

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            f = self.truth_formula(v) if not isinstance(v, SOpt) else self.truth_formula(v)
            return self.simple(SBool(z3.simplify(z3.Not(f))))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            return SInt(-v.e) if isinstance(v, SInt) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    _ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
            ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.Pow: operator.pow,
            ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
            ast.BitXor: operator.xor}

    _dunder = {ast.Add: "add", ast.Sub: "sub", ast.BitOr: "or", ast.BitAnd: "and"}

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return rope(a, b)
            sa = isinstance(a, (Seq, list, tuple))
            sb = isinstance(b, (Seq, list, tuple))
            if sa and sb:
                ka = a.kind if isinstance(a, Seq) else type(a).__name__
                kb = b.kind if isinstance(b, Seq) else type(b).__name__
                if {ka, kb} == {"list", "StatementList"}:
                    ka = kb = "list"
                if ka != kb:
                    raise PyRaise(TypeError("can only concatenate the same kind of sequence"))
                items = list(self.items_of(a)) + list(self.items_of(b))
                if ka == "tuple" and not any(isinstance(i, Seg) for i in items):
                    return tuple(items)
                return self.new_seq(items, ka)
        if isinstance(a, SInt) or isinstance(b, SInt):
            x, y = self.as_int(a), self.as_int(b)
            if x is not None and y is not None:
                if isinstance(op, ast.Add):
                    return self.simple(SInt(x + y))
                if isinstance(op, ast.Sub):
                    return self.simple(SInt(x - y))
                if isinstance(op, ast.Mult):
                    return self.simple(SInt(x * y))
            raise Unsupported("arithmetic")
        for x, y, prefix in ((a, b, "__"), (b, a, "__r")):
            m = inspect.getattr_static(type(x), prefix + self._dunder.get(type(op), "none") + "__", None)
            if source.interpretable(m):
                return self.call(BoundMethod(x, m), [y], {})
        if isinstance(op, ast.Mult) and isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a * b
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            raise Unsupported("printf-style formatting of symbolic values") if self.has_sym(b) or isinstance(a, SStr) else None
        if isinstance(op, ast.BitOr) and isinstance(a, (Seq,)) and a.kind == "set":
            return self.new_seq(a.items + self.to_seq(b), "set")
        if isinstance(a, Sym) or isinstance(b, Sym) or self.has_sym(a) or self.has_sym(b):
            raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")
        try:
            return self._ops[type(op)](a, b)
        except Exception as ex:
            raise PyRaise(ex)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        result = TRUE
        for n, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(right, env)
            f = self.as_z3(self.compare(op, left, r))
            result = f if n == 0 else z3.And(result, f)
            if n + 1 < len(e.ops) and not self.choose(f):
                return False
            left = r
        return self.simple(SBool(z3.simplify(result)))

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop-carried value in a comparison")
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None and isinstance(a, SOpt):
                f = a.none
            elif a is None and isinstance(b, SOpt):
                f = b.none
            else:
                if isinstance(a, SOpt) or isinstance(b, SOpt):
                    a, b = self.force(a), self.force(b)
                if isinstance(a, Opaque) and isinstance(b, Opaque):
                    f = a.e == b.e
                elif isinstance(a, Opaque) and a.cls is not object and b is None:
                    f = FALSE
                elif isinstance(a, Opaque) and (b is None or isinstance(b, (bool,))):
                    f = a.e == self.obj_term(b)
                elif isinstance(a, Opaque) or isinstance(b, Opaque):
                    o, x = (a, b) if isinstance(a, Opaque) else (b, a)
                    if isinstance(x, type) and o.cls in (object, type):
                        f = o.e == self.obj_term(x)
                    else:
                        f = FALSE
                elif isinstance(a, SBool) and isinstance(b, bool):
                    f = a.e == self.as_z3(b)
                elif isinstance(a, (SStr, SInt)) or isinstance(b, (SStr, SInt)):
                    f = FALSE if (a is None or b is None) else self._unsup("identity of texts")
                else:
                    f = TRUE if a is b else FALSE
            return f if isinstance(op, ast.Is) else z3.Not(f)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        a, b = self.force(a), self.force(b)
        if isinstance(a, SInt) or isinstance(b, SInt):
            x, y = self.as_int(a), self.as_int(b)
            if x is None or y is None:
                raise Unsupported("ordering")
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")
        try:
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](a, b)
        except TypeError as ex:
            raise PyRaise(ex)

    def contains(self, c, x):
        c = self.force(c)
        if isinstance(c, SDict):
            return self.dict_contains(c, x)
        if isinstance(c, (Seq, tuple, list)):
            ors = []
            for i in self.items_of(c):
                if isinstance(i, Seg):
                    ors.append(self.seg_contains(i, x))
                else:
                    ors.append(self.eq(i, x))
            return z3.Or(*ors) if ors else FALSE
        if isinstance(c, (SStr, str)):
            return self.text_contains(c, x)
        if isinstance(c, Opaque):
            return self.fn("contains_obj", Obj, Obj, z3.BoolSort())(c.e, self.obj_term(x))
        if isinstance(c, Sym):
            raise Unsupported("membership")
        if isinstance(c, (dict, set, frozenset)) or isinstance(c, type({}.keys())):
            if isinstance(x, SOpt):
                x = self.force(x)
            if not self.has_sym(x):
                return TRUE if x in c else FALSE
            return z3.Or(*[self.eq(k, x) for k in c]) if c else FALSE
        m = inspect.getattr_static(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType) and source.interpretable(m):
            return self.as_z3(self.call(BoundMethod(c, m), [x], {}))
        if not self.has_sym(x) and not self.has_sym(c):
            return TRUE if x in c else FALSE
        raise Unsupported(f"membership in {type(c).__name__}")

    def seg_contains(self, seg, x):
        "Membership of a value in a list segment."
        base = seg.base
        x = self.force(x) if isinstance(x, SOpt) else x
        el = self.canon(base)
        # identity mapping of a keyed base of texts or objects with a text key
        ors = []
        for c, items in seg.cases:
            for it in items:
                if isinstance(it, Seg):
                    ors.append(self.nested_contains(base, c, it, x))
                    continue
                if it is x:
                    ors.append(z3.And(base.ne, c))
                    continue
                if self.other_key(base, x) and it is el:
                    continue
                kx = self.key_term(x)
                ki = self.key_term(it)
                if kx is None or ki is None:
                    raise Unsupported("membership by a derived value")
                if ki.eq(kx):
                    ors.append(z3.And(base.ne, c))
                    continue
                if base.key is not None and isinstance(el, SStr) and ki.eq(self.term(el)) and ki.eq(self.term(base.key(el))):
                    # the elements are their own keys
                    ors.append(z3.And(self.has(base, kx), z3.substitute(c, (ki, kx))))
                    continue
                if (base.key is not None and type(it) is type(x) and z3.is_true(z3.simplify(c))
                        and isinstance(base.key(el), SStr) and ki.eq(self.term(base.key(el)))):
                    # the keys of all the elements
                    ors.append(self.has(base, kx))
                    continue
                f = self.fn(f"in:{base.name}:{self._shape(ki, base)}", kx.sort(), z3.BoolSort())
                if z3.is_true(z3.simplify(c)):
                    self.fact(z3.Implies(base.ne, f(ki)))
                    self.fact(z3.Implies(f(kx), base.ne))
                    ors.append(f(kx))
                else:
                    cs = z3.simplify(c)
                    g = self.fn(f"in:{base.name}:{self._shape(ki, base)}:{cs.sexpr()}", kx.sort(), z3.BoolSort())
                    self.fact(z3.Implies(z3.And(base.ne, c), g(ki)))
                    self.fact(z3.Implies(g(kx), self.exists(base, cs)))
                    ors.append(g(kx))
        return z3.Or(*ors) if ors else FALSE

    def nested_contains(self, base, c, seg, x):
        "Membership in a list built by nested iterations whose items are elements of the outer sequence."
        el = self.canon(base)
        if base.key is None or any(it is not el for _, items in seg.cases for it in items):
            raise Unsupported("membership in a nested segment")
        if x is el:
            return z3.And(base.ne, c, self.seg_nonempty(seg))
        if self.other_key(base, x):
            return FALSE
        raise Unsupported("membership in a nested segment")

    def other_key(self, base, x):
        "The value is known to have a key that no element of the sequence has."
        if base.key is None or isinstance(x, (str, SStr)):
            return False
        try:
            t = self.term(base.key(x))
        except (AttributeError, Unsupported):
            return False
        return self.known(z3.Not(self.mem(base)(t)))

    def _shape(self, t, base):
        return t.sexpr()

    def key_term(self, x):
        if isinstance(x, (str, SStr)):
            return self.term(x)
        if isinstance(x, Opaque):
            return x.e
        cls = type(x)
        if dataclasses.is_dataclass(cls) and not isinstance(x, type):
            fs = dataclasses.fields(cls)
            if len(fs) == 1:
                return self.key_term(getattr(x, fs[0].name))
        return None

    def text_contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        if isinstance(x, str):
            for p in pieces_of(c):
                if isinstance(p, str) and x in p:
                    return TRUE
            if len(x) == 1:
                # some piece has the character
                ors = []
                for p in pieces_of(c):
                    if isinstance(p, str):
                        continue
                    if p.kind == "hom":
                        base, table = p.arg
                        table = dict(table)
                        for d in sorted({*table, x}):
                            if x in table.get(d, d):
                                ors.append(self.text_contains(SStr([base]), d))
                    else:
                        ors.append(self.fn("contains", Text, Text, z3.BoolSort())(p.e, self.lit(x)))
                return z3.Or(*ors) if ors else FALSE
        elif any(not isinstance(p, str) and self.term(SStr([p])).eq(self.term(x)) for p in pieces_of(c)):
            return TRUE
        return self.fn("contains", Text, Text, z3.BoolSort())(self.term(c), self.term(x))

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        f = self.eval(e.func, env)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "join" and len(e.args) == 1 and not e.keywords:
            sep = f.obj if isinstance(f, SymMethod) else getattr(f, "__self__", None)
            r = self.join_of_split(sep, e.args[0], env) if isinstance(sep, (str, SStr)) else None
            if r is not None:
                return r
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.to_seq(self.eval(a.value, env))
                if any(isinstance(i, Seg) for i in items):
                    args.append(StarArgs(items))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                entries = d.items if isinstance(d, SDict) else list(d.items()) if isinstance(d, dict) else self.mapping_items(d)
                if entries is None:
                    raise Unsupported("** of a non-dict")
                if any(isinstance(i, Seg) for i in entries):
                    kwargs["**"] = d
                else:
                    for kk, vv in entries:
                        if not isinstance(kk, str):
                            raise Unsupported("symbolic keyword")
                        kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if any(isinstance(a, StarArgs) for a in args) or "**" in kwargs:
            return self.call_star(f, args, kwargs)
        return self.call(f, args, kwargs)

    def join_of_split(self, sep, a, env):
        "`new.join(text.split(old))`, which replaces a character throughout a text."
        if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "split" and len(a.args) == 1
                and isinstance(a.args[0], ast.Constant) and isinstance(a.args[0].value, str) and len(a.args[0].value) == 1 and not a.keywords
                and isinstance(a.func.value, (ast.Name, ast.Attribute))):
            return None
        s = self.force(self.eval(a.func.value, env))
        if not isinstance(s, SStr):
            return None
        return self.call(self.getattr(s, "replace"), [a.args[0].value, sep], {})

    def call_star(self, f, args, kwargs):
        h = None
        if isinstance(f, SymMethod):
            pass
        try:
            h = self.memo.get(("star", f))
        except TypeError:
            pass
        fn = getattr(f, "obj", None)
        hook = getattr(self, "star_hook", None)
        if hook is not None:
            r = hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        # a callee that collects the arguments itself
        target, extra = (f.func, [f.obj]) if isinstance(f, BoundMethod) else (f, [])
        if isinstance(target, types.FunctionType) and source.interpretable(target):
            node = source.find(target)
            if node.args.vararg is not None and not any(isinstance(a, StarArgs) for a in args[:-1]) and isinstance(args[-1], StarArgs):
                pos = [p.arg for p in node.args.args]
                fixed = extra + args[:-1]
                if len(fixed) == len(pos):
                    env = Env(None, target.__globals__, func=node)
                    for p, v in zip(pos, fixed):
                        env.vars[p] = v
                    env.vars[node.args.vararg.arg] = self.new_seq(args[-1].items, "tuple")
                    if node.args.kwarg is not None:
                        env.vars[node.args.kwarg.arg] = self.new_dict()
                    try:
                        self.exec_block(node.body, env)
                        return None
                    except ReturnEx as r:
                        return r.value
        raise Unsupported("call with an argument list of unknown length")

    def make_super(self, env):
        e = env
        while e is not None and (e.func is None or e.func == "comp"):
            e = e.parent
        f = e.func
        first = f.args.args[0].arg
        obj = e.vars[first]
        cls = None
        p = e
        while p is not None:
            if "__class__" in p.vars:
                cls = p.vars["__class__"]
                break
            p = p.parent
        if cls is None:
            raise Unsupported("super() without a class cell")
        return SuperProxy(cls, obj)

    def e_Lambda(self, e, env):
        return Closure(e, env, env.globs, "<lambda>",
                       tuple(self.eval(d, env) for d in e.args.defaults),
                       {a.arg: self.eval(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_IfExp(self, e, env):
        return self.eval(e.body, env) if self.truth(self.eval(e.test, env)) else self.eval(e.orelse, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        return rope(*parts)

    def e_FormattedValue(self, v, env):
        x = self.eval(v.value, env)
        return self.formatted(x, v.conversion, self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else None)

    def formatted(self, x, conversion, spec):
        if conversion == 114:
            x = self.force(x)
            if self.has_sym(x):
                return SStr([Atom(z3.Const(self.fresh("repr"), Text))])
            x = repr(self.native(x))
        if spec is not None:
            x = self.force(x)
            if self.has_sym(x) or isinstance(spec, SStr):
                raise Unsupported("format specification for a symbolic value")
            return format(x, spec)
        return self.text(x)

    def e_Await(self, e, env):
        return self.eval(e.value, env)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        f = env
        while f is not None and f.yields is None:
            f = f.parent
        self.append(f.yields, v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        f = env
        while f is not None and f.yields is None:
            f = f.parent
        for i in self.to_seq(v):
            self.append(f.yields, i)
        return None

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Slice(self, e, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, env):
        obj = self.eval(e.value, env)
        idx = self.eval(e.slice, env)
        return self.subscript(obj, idx)

    def subscript(self, obj, idx):
        obj = self.force(obj)
        idx = self.force(idx)
        if isinstance(obj, SDict):
            v = self.dict_get(obj, idx)
            if v is MISSING:
                raise PyRaise(KeyError(idx))
            return v
        if isinstance(obj, (Seq, tuple, list)) and not isinstance(obj, type):
            return self.sym_methods["index"](self, obj, idx)
        if isinstance(obj, (SStr, str)):
            return self.sym_methods["text_index"](self, obj, idx)
        if isinstance(obj, Opaque):
            getter = obj.attrs.get("$item")
            if getter is not None:
                return getter(self, idx)
            return Opaque(self.fn("item", Obj, Obj, Obj)(obj.e, self.obj_term(idx)), object)
        if isinstance(obj, Sym):
            raise Unsupported("subscript")
        if isinstance(obj, dict):
            if not self.has_sym(idx):
                try:
                    return obj[idx]
                except (KeyError, TypeError) as ex:
                    raise PyRaise(ex)
            for k, v in obj.items():
                if self.choose(self.eq(k, idx)):
                    return v
            raise PyRaise(KeyError(idx))
        m = inspect.getattr_static(type(obj), "__getitem__", None)
        if isinstance(m, types.FunctionType) and source.interpretable(m):
            return self.call(BoundMethod(obj, m), [idx], {})
        if not self.has_sym(obj) and not self.has_sym(idx):
            try:
                return obj[self.native(idx)]
            except Exception as ex:
                raise PyRaise(ex)
        raise Unsupported(f"subscript of {type(obj).__name__}")

    # comprehensions -----------------------------------------------------
    def comp(self, generators, env, emit):
        cenv = Env(env, env.globs, func="comp")
        cenv.cls = env.cls

        def level(n):
            if n == len(generators):
                emit(cenv)
                return
            g = generators[n]
            items = self.to_seq(self.eval(g.iter, cenv if n else env))

            def body(x):
                self.assign_comp(g.target, x, cenv)
                for c in g.ifs:
                    if not self.truth(self.eval(c, cenv)):
                        return
                level(n + 1)

            self.run_loop(items, body)

        level(0)

    def assign_comp(self, t, x, cenv):
        if isinstance(t, ast.Name):
            self.setvar(cenv, t.id, x)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_seq(x)
            if any(isinstance(i, Seg) for i in items):
                raise Unsupported("unpacking a sequence of unknown length")
            if len(items) != len(t.elts):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            for e, v in zip(t.elts, items):
                self.assign_comp(e, v, cenv)
        else:
            raise Unsupported("comprehension target")

    def e_ListComp(self, e, env):
        acc = self.new_seq([], "list")
        self.comp(e.generators, env, lambda c: self.append(acc, self.eval(e.elt, c)))
        return acc

    def e_SetComp(self, e, env):
        acc = self.e_ListComp(e, env)
        return self.sym_methods["to_set"](self, acc)

    def e_GeneratorExp(self, e, env):
        acc = self.e_ListComp(e, env)
        is_async = any(g.is_async for g in e.generators)
        return self.new_seq(acc.items, "aiter" if is_async else "iter")

    def e_DictComp(self, e, env):
        acc = self.new_seq([], "list")
        self.comp(e.generators, env, lambda c: self.append(acc, (self.eval(e.key, c), self.eval(e.value, c))))
        return self.dict_from_pairs(acc.items)

    def dict_from_pairs(self, items):
        d = self.new_dict()
        for it in items:
            if isinstance(it, Seg):
                self.check_keyed(it)
                self.trail.append(("dset", d, d.items))
                d.items = d.items + [it]
            else:
                self.dict_set(d, it[0], it[1])
        return d

    def check_keyed(self, seg):
        base = seg.base
        if base.key is None:
            raise Unsupported("dictionary over a sequence without distinct keys")
        ck = self.term(base.key(self.canon(base)))
        for c, items in seg.cases:
            if len(items) > 1:
                raise Unsupported("several dictionary entries per element")
            for k, v in items:
                if isinstance(k, Sym) and not isinstance(k, SStr):
                    raise Unsupported("dictionary key")
                t = self.term(k)
                while z3.is_app(t) and t.num_args() == 1 and t.decl().name() in self.injective:
                    t = t.arg(0)
                if not t.eq(ck):
                    if not self.known(t == ck):
                        raise Unsupported("dictionary over keys that are not known to be distinct")


class StarArgs:
    def __init__(self, items):
        self.items = items


def reads_before_write(body, names):
    """
    Conservative: may the block read one of the names before it writes it (so that a value is carried from one
    iteration to the next)? Augmented assignment counts as a read. A store through a plain name inside a branch
    counts as a write only for that branch.
    """
    def expr_reads(node, written):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in written:
                return True
        return False

    def block(stmts, written):
        w = set(written)
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is not None and expr_reads(s.value, w):
                    return True, w
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    if isinstance(t, ast.Name):
                        w.add(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                w.add(e.id)
                    elif expr_reads(t, w):
                        return True, w
            elif isinstance(s, ast.AugAssign):
                if expr_reads(s.value, w):
                    return True, w
                if isinstance(s.target, ast.Name):
                    if s.target.id in names and s.target.id not in w:
                        return True, w
                elif expr_reads(s.target, w):
                    return True, w
            elif isinstance(s, ast.If):
                if expr_reads(s.test, w):
                    return True, w
                r1, w1 = block(s.body, w)
                r2, w2 = block(s.orelse, w)
                if r1 or r2:
                    return True, w
                ends1 = bool(s.body) and isinstance(s.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
                ends2 = bool(s.orelse) and isinstance(s.orelse[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
                if ends1:
                    w = w2
                elif ends2:
                    w = w1
                else:
                    w = w1 & w2
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                if expr_reads(s.iter, w):
                    return True, w
                w2 = set(w)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        w2.add(n.id)
                r, _ = block(s.body, w2)
                if r:
                    return True, w
                r, _ = block(s.orelse, w)
                if r:
                    return True, w
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for it in s.items:
                    if expr_reads(it.context_expr, w):
                        return True, w
                    if isinstance(it.optional_vars, ast.Name):
                        w.add(it.optional_vars.id)
                r, w = block(s.body, w)
                if r:
                    return True, w
            elif isinstance(s, ast.Try):
                r, w1 = block(s.body, w)
                if r:
                    return True, w
                for h in s.handlers:
                    r, _ = block(h.body, w | ({h.name} if h.name else set()))
                    if r:
                        return True, w
                r, w1 = block(s.orelse, w1)
                if r:
                    return True, w
                leaves = all(h.body and isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)) for h in s.handlers)
                r, w = block(s.finalbody, w1 if leaves else w)
                if r:
                    return True, w
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if expr_reads(s, w):
                    return True, w
                w.add(s.name)
            else:
                if expr_reads(s, w):
                    return True, w
        return False, w

    return block(body, set())[0]
