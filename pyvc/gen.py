"""
The two readings of a contract. `SymG`: the inputs are arbitrary symbolic values and every clause becomes an obligation
for the solver. `NatG`: the inputs are generated values and the same clauses are evaluated on the real functions under
CPython (replay of refuted obligations, cross-check of the verifier, bounded stand-in).
"""
from __future__ import annotations

import asyncio
import inspect
import random
import sys
import types

import z3

from .engine import Engine, FALSE, MISSING, TRUE
from .standin import misused
from .values import (
    Atom, Base, BoundMethod, Infeasible, Obj, Opaque, PyRaise, SBool, SDict, Seg, Seq, SInt, SOpt, SStr, Sym, Text,
    Unsupported, pieces_of, rope,
)


class Skip(Exception):
    "The generated input does not satisfy the precondition."


class Violation(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name)
        self.name = name
        self.detail = detail


class Outcome:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    @property
    def raised(self):
        return self.kind == "raise"

    def __repr__(self):
        return f"{self.kind}: {self.value!r}"


def text_of(v):
    try:
        return v if isinstance(v, str) else repr(v)
    except Exception:  # objects in the making have no representation yet
        return f"<{type(v).__name__}>"


class SpecError(Exception):
    "The text is not one that the specification's reader of SQL understands."


# ---------------------------------------------------------------------------------------------- symbolic
class SymG:
    symbolic = True

    def __init__(self, engine: Engine):
        self.e = engine

    # -- inputs
    def text(self, name, **kw):
        return SStr([Atom(z3.Const(name, Text))])

    def name_text(self, name):
        "A non-empty identifier."
        t = self.text(name)
        self.e.fact(self.e.term(t) != self.e.lit(""))
        return t

    def expr(self, name):
        "An SQL expression: one unit for the reader of SQL."
        return SStr([Atom(z3.Const(name, Text), "expr")])

    def bool(self, name):
        return SBool(z3.Bool(name))

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.e.fact(v >= lo)
        if hi is not None:
            self.e.fact(v <= hi)
        return SInt(v)

    def opt(self, name, value):
        if isinstance(value, types.FunctionType):
            value = value(name)
        return SOpt(z3.Bool(f"{name}.none"), value)

    def flag(self, name):
        "A decision made on this path."
        return self.e.choose(z3.Bool(name))

    def choice(self, name, options):
        for o in options[:-1]:
            if self.e.choose(z3.Bool(f"{name}={o}")):
                return o
        return options[-1]

    def opaque(self, name, cls=object, cands=None, exact=False, native=None):
        o = Opaque(z3.Const(name, Obj), cls)
        if cands:
            o.attrs["$cands"] = list(cands)
        if exact:
            o.attrs["$exact"] = True
        return o

    def opaque_of(self, name, o, cls=object):
        "The value of a function, unknown, of an unknown object."
        return Opaque(self.e.fn(name, Obj, Obj)(o.e), cls)

    def text_of(self, name, text):
        "The value of a function, unknown, of a text: a different one for a different text."
        r = self.e.text_fn(name, text)
        self.e.injective.add(self.e.term(r).decl().name())
        return r

    def sql_type(self, name, cands=None):
        from pysqlsync.model.data_types import SqlDataType

        return self.opaque(name, SqlDataType, cands)

    def base(self, name, make, key=None, facts=None):
        b = Base(name, make, key)
        el = self.e.canon(b)
        fs = [z3.Implies(b.ne, self.z(f)) for f in (facts(el) if facts else [])]
        if key is not None:
            fs.append(z3.Implies(b.ne, self.e.mem(b)(self.e.term(key(el)))))
        for f in fs:
            self.e.fact(f)
        b.facts = fs
        self.e.memo[("basebyname", name)] = b
        return b

    def seq(self, name, make, key=None, facts=None, kind="list"):
        "A sequence of arbitrary length of elements built by make(prefix); with a key: under distinct keys."
        b = self.base(name, make, key, facts)
        return self.e.new_seq([Seg(b, [(TRUE, (b.canon,))])], kind)

    def around(self, name, make, key, n, unit=None, facts=None, kind="list"):
        "A sequence with the unit (if any) somewhere in it, all of whose other elements have keys other than n."
        e = self.e
        nt = e.term(n)
        fs = lambda el: [e.term(key(el)) != nt] + (list(facts(el)) if facts else [])
        a = self.base(f"{name}<", make, key, fs)
        b = self.base(f"{name}>", make, key, fs)
        f = z3.Implies(b.ne, z3.Not(e.mem(a)(e.term(key(b.canon)))))
        e.fact(f)
        b.facts = b.facts + [f]
        f = z3.Implies(a.ne, z3.Not(e.mem(b)(e.term(key(a.canon)))))
        e.fact(f)
        a.facts = a.facts + [f]
        e.fact(z3.Not(e.mem(a)(nt)))
        e.fact(z3.Not(e.mem(b)(nt)))
        items = [Seg(a, [(TRUE, (a.canon,))])]
        if unit is not None:
            items.append(unit)
        items.append(Seg(b, [(TRUE, (b.canon,))]))
        return e.new_seq(items, kind)

    def list_of(self, *items, kind="list"):
        out = []
        for i in items:
            out.append(i)
        return self.e.new_seq(out, kind)

    def items(self, v):
        "The elements of a sequence known on this path (units and segments)."
        return self.e.to_seq(v)

    def map(self, v, f):
        "f of each element; f does not branch"
        return self.e.new_seq(self.e.map_items(self.e.to_seq(v), f), "list")

    def filter(self, v, cond, f=None):
        "The elements for which the formula holds (f of them)."
        def case(el, base=None):
            c = self.z(cond(el))
            if base is not None:
                c = z3.substitute(c, (base.ne, TRUE))
            self.e.push()
            try:
                self.e.solver.add(c)
                if self.e.check() == z3.unsat:
                    return (c, ())
                return (c, (f(el) if f else el,))
            finally:
                self.e.pop()

        def seg(i):
            cases = []
            for c, xs in i.cases:
                for x in xs:
                    if isinstance(x, Seg):
                        y = seg(x)
                        if y.cases:
                            cases.append((c, (y,)))
                        continue
                    c2, ys = case(x, i.base)
                    if ys:
                        cases.append((z3.simplify(z3.And(c, c2)), ys))
            return Seg(i.base, cases, i.rev)

        out = []
        for i in self.e.to_seq(v):
            if isinstance(i, Seg):
                out.append(seg(i))
            elif self.e.choose(self.z(cond(i))):
                out.append(f(i) if f else i)
        return self.e.new_seq(out, "list")

    def cases(self, v, f):
        "Each element by cases: f returns pairs of a formula and a value; the cases exclude each other."
        def seg(items):
            out = []
            for i in items:
                if isinstance(i, Seg):
                    cs = []
                    for c, xs in i.cases:
                        if len(xs) != 1 or isinstance(xs[0], Seg):
                            raise Unsupported("cases of several elements")
                        cs.extend((z3.simplify(z3.And(c, self.z(c2))), (y,)) for c2, y in f(xs[0]))
                    out.append(Seg(i.base, cs, i.rev))
                else:
                    out.append(next(y for c2, y in f(i) if self.truth(c2)))
            return out
        return self.e.new_seq(seg(self.e.to_seq(v)), "list")

    def has_key(self, v, key):
        "Some element of the keyed sequence has the key."
        ors = []
        for i in self.e.to_seq(v):
            if isinstance(i, Seg):
                t = self.e.term(key)
                el = self.e.canon(i.base)
                if t.eq(self.e.term(i.base.key(el))):
                    ors.append(i.base.ne)
                else:
                    ors.append(self.e.has(i.base, t))
            else:
                ors.append(self.e.eq(self.key_of(i), key))
        return SBool(z3.Or(*ors) if ors else FALSE)

    def at_key(self, v, key):
        "The element with the key (for use where has_key holds)."
        items = self.e.to_seq(v)
        for i in items[:-1]:
            if isinstance(i, Seg):
                if self.e.choose(self.e.has(i.base, self.e.term(key))):
                    return self.e.at(i.base, self.e.term(key))[0]
            elif self.e.choose(self.e.eq(self.key_of(i), key)):
                return i
        i = items[-1]
        return self.e.at(i.base, self.e.term(key))[0] if isinstance(i, Seg) else i

    def key_of(self, x):
        return self.e.getattr(self.e.getattr(x, "name"), "local_id")

    def to_list(self, v):
        return self.e.new_seq(list(self.e.to_seq(v)), "list")

    def reversed(self, v):
        return self.e.call(list, [self.e.call(reversed, [self.to_list(v)], {})], {})

    def enumerate(self, v, start=0):
        return self.call(enumerate, v, start)

    def str(self, v):
        return self.e.text(v)

    def length(self, v):
        return self.e.call(len, [v], {})

    # -- running the code
    def new(self, cls, *a, **k):
        return self.e.call(cls, list(a), k)

    def call(self, f, *a, **k):
        return self.e.call(f, list(a), k)

    def method(self, obj, name, *a, **k):
        return self.e.call(self.e.getattr(obj, name), list(a), k)

    amethod = method

    def attr(self, obj, name):
        return self.e.getattr(obj, name)

    def outcome(self, obj, name, *a, **k):
        try:
            return Outcome("return", self.method(obj, name, *a, **k) if name else self.call(obj, *a, **k))
        except PyRaise as p:
            return Outcome("raise", p.value)

    def obj(self, cls, **attrs):
        "An instance with the given attributes, whatever its constructor does."
        o = object.__new__(cls)
        self.e.born(o)
        o.__dict__.update(attrs)
        return o

    def override(self, f, handler):
        self.e.overrides[f] = handler

    def split_first(self, v):
        "The same sequence, its first element set apart if there is one."
        from .builtins_ import split_first

        r = split_first(self.e, self.e.to_seq(v))
        return Seq([] if r is None else [r[0], *r[1]], "list")

    def flat(self, v):
        "The items of the items."
        out = []
        for i in self.e.to_seq(v):
            if isinstance(i, Seg):
                out.append(Seg(i.base, [(c, tuple(y for x in xs for y in self.e.to_seq(x))) for c, xs in i.cases], i.rev))
            else:
                out.extend(self.e.to_seq(i))
        return self.e.new_seq(out, "list")

    def to_tuple(self, v):
        return self.e.new_seq(list(self.e.to_seq(v)), "tuple")

    def as_dict(self, pairs):
        return self.call(dict, pairs)

    def joined(self, v):
        "The separator and the items of joined bytes."
        return v.attrs.get("$joined", (None, None)) if isinstance(v, Opaque) else (None, None)

    def as_set(self, v):
        return self.e.new_seq(list(self.e.to_seq(v)), "set")

    def item(self, v, n):
        return self.e.subscript(v, n)

    def unsupported(self, why):
        raise Unsupported(why)

    def global_value(self, module, name, value):
        "The value of a global variable of a module."
        if name not in vars(module):
            raise Unsupported(f"no global variable {name}")
        self.e.globals[id(vars(module)), name] = value

    def stub(self, owner, name, impl):
        "The code under test calls `impl`, which is interpreted, in place of the external function."
        f = inspect.getattr_static(owner, name)
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        self.e.overrides[f] = lambda e, *a, **k: e.call(impl, list(a), k)

    # -- formulas
    def z(self, c):
        if isinstance(c, (list, tuple)):
            return z3.And(*[self.z(x) for x in c]) if c else TRUE
        return self.e.as_z3(c)

    def eq(self, a, b):
        return SBool(self.e.eq(a, b))

    def And(self, *c):
        return SBool(z3.And(*[self.z(x) for x in c]))

    def Or(self, *c):
        return SBool(z3.Or(*[self.z(x) for x in c]))

    def Not(self, c):
        return SBool(z3.Not(self.z(c)))

    def Implies(self, a, b):
        return SBool(z3.Implies(self.z(a), self.z(b)))

    def is_none(self, v):
        if isinstance(v, SOpt):
            return SBool(v.none)
        return v is None

    def force(self, v):
        return self.e.force(v)

    def truth(self, c):
        return self.e.choose(self.z(c))

    def assume(self, c):
        self.e.assume(self.z(c))

    def contains(self, c, x):
        return SBool(self.e.contains(c, x))

    def gt(self, a, b):
        a, b = self.e.as_int(a), self.e.as_int(b)
        return SBool(a > b)

    def isinstance(self, v, cls):
        return SBool(self.e.as_z3(self.e.isinstance_(v, cls)))

    # -- clauses
    def ensure(self, name, c, detail=""):
        self.e.goal_mode = True
        try:
            f = self.z(c)
        finally:
            self.e.goal_mode = False
        return self.e.prove(name, f, lambda: text_of(detail))

    def ensure_eq(self, name, a, b, detail=""):
        self.e.goal_mode = True
        try:
            f = self.e.eq(a, b)
        finally:
            self.e.goal_mode = False
        return self.e.prove(name, f, lambda: f"{text_of(detail)}\nactual:   {text_of(a)}\nexpected: {text_of(b)}")

    def proves_eq(self, a, b):
        "True if they are known to be equal."
        self.e.goal_mode = True
        try:
            f = self.e.eq(a, b)
        finally:
            self.e.goal_mode = False
        return self.e.check(z3.Not(self.z(f))) == z3.unsat

    def fail(self, name, detail=""):
        self.e.fail(name, text_of(detail))

    def contains_char(self, base, c):
        "An unknown piece of text has the character somewhere."
        return SBool(self.e.as_z3(self.e.text_contains(SStr([base]), c)))

    def known(self, c):
        return self.e.check(z3.Not(self.z(c))) == z3.unsat

    def cover(self, name):
        "Records that a case of the contract is reachable (guards against vacuous proofs)."
        self.e.covers[name] = self.e.covers.get(name, 0) + 1

    def show(self, v):
        return repr(v)


# ---------------------------------------------------------------------------------------------- native
NASTY = ["a+b", "a", "b", "id", "Name", "x y", 'q"t', "a'b", "back\\slash", "semi;colon", "tick`", "a.b", "a__b", "--", "new\nline",
         "", "é", "brace]", "%s", "$1", "ordinal", "O''x", "tab\t", "pct%_", "/*c*/", ":a", "{x}", '""', "''", "\\'", "\\\\"]
IDENTS = ["a", "b", "c", "id", "Name", "order", "x y", 'q"t', "t'b", "back`tick", "a.b", "a__b", "br]k", "semi;", "(", ",", "né"]
EXPRS = ["0", "1", "'it''s'", "CURRENT_TIMESTAMP", "'a, b; c'", "-1", "''", "'A, B; C'", "current_timestamp", "'it''s '"]


class NatG:
    symbolic = False

    def __init__(self, rng: random.Random):
        self.rng = rng
        self.values = []
        self.idents = rng.sample(IDENTS, min(len(IDENTS), rng.choice([3, 5, 8])))
        self.covers = {}
        self.checked = 0
        self.log = []
        self.undo = []

    def note(self, name, v):
        self.log.append((name, v))
        return v

    def text(self, name, **kw):
        r = self.rng.random()
        if r < 0.6:
            s = self.rng.choice(NASTY)
        else:
            s = "".join(self.rng.choice("ab'\"\\`;,.()%_-$ \n\t]é:+&=?#/@{}") for _ in range(self.rng.choice([1, 2, 3, 6])))
        return self.note(name, s)

    def name_text(self, name):
        return self.note(name, self.rng.choice(self.idents) if self.rng.random() < 0.9 else self.rng.choice(IDENTS))

    def expr(self, name):
        return self.note(name, self.rng.choice(EXPRS))

    def bool(self, name):
        return self.note(name, self.rng.random() < 0.5)

    def int(self, name, lo=None, hi=None):
        lo = -3 if lo is None else lo
        hi = lo + 8 if hi is None else hi
        if hi - lo > 20 and self.rng.random() < 0.5:
            # small numbers are the likeliest to be special
            return self.note(name, self.rng.randint(lo, lo + 10))
        return self.note(name, self.rng.randint(lo, hi))

    def opt(self, name, value):
        if isinstance(value, types.FunctionType):
            value = value(name)
        return value if self.rng.random() < 0.5 else None

    def flag(self, name):
        return self.note(name, self.rng.random() < 0.5)

    def choice(self, name, options):
        return self.note(name, self.rng.choice(list(options)))

    def opaque(self, name, cls=object, cands=None, exact=False, native=None):
        if native is not None:
            v = self.rng.choice(native) if isinstance(native, (list, tuple)) else native()
        else:
            v = f"obj:{self.rng.randint(0, 4)}"
        return self.note(name, v)

    def sql_type(self, name, cands=None):
        from . import sqltypes

        return self.note(name, sqltypes.random_type(self.rng, cands))

    def seq(self, name, make, key=None, facts=None, kind="list"):
        n = self.rng.choice([0, 1, 1, 2, 3, 4, 5])
        out, seen = [], set()
        for i in range(n):
            el = make(f"{name}[{i}]")
            if facts is not None and not all(facts(el)):
                continue
            if key is not None:
                k = key(el)
                if k in seen:
                    continue
                seen.add(k)
            out.append(el)
        return tuple(out) if kind == "tuple" else iter(out) if kind == "iter" else out

    def around(self, name, make, key, n, unit=None, facts=None, kind="list"):
        els = [x for x in self.seq(name, make, key, facts) if key(x) != n]
        if unit is not None:
            els.insert(self.rng.randint(0, len(els)), unit)
        return tuple(els) if kind == "tuple" else els

    def list_of(self, *items, kind="list"):
        return tuple(items) if kind == "tuple" else list(items)

    def items(self, v):
        return list(v)

    def map(self, v, f):
        return [f(x) for x in v]

    def filter(self, v, cond, f=None):
        return [f(x) if f else x for x in v if cond(x)]

    def cases(self, v, f):
        return [next(y for c, y in f(x) if c) for x in v]

    def has_key(self, v, key):
        return any(self.key_of(x) == key for x in v)

    def at_key(self, v, key):
        return next(x for x in v if self.key_of(x) == key)

    key_of = staticmethod(lambda x: x.name.local_id)

    def to_list(self, v):
        return list(v)

    def reversed(self, v):
        return list(v)[::-1]

    def enumerate(self, v, start=0):
        return list(enumerate(v, start))

    def str(self, v):
        return str(v)

    def length(self, v):
        return len(v)

    def new(self, cls, *a, **k):
        return cls(*a, **k)

    def run(self, r):
        if inspect.iscoroutine(r):
            return asyncio.run(r)
        if inspect.isasyncgen(r):
            async def drain():
                return [x async for x in r]
            return asyncio.run(drain())
        return r

    def call(self, f, *a, **k):
        return self.run(f(*a, **k))

    def method(self, obj, name, *a, **k):
        return self.run(getattr(obj, name)(*a, **k))

    amethod = method

    def attr(self, obj, name):
        return getattr(obj, name)

    def outcome(self, obj, name, *a, **k):
        try:
            return Outcome("return", self.method(obj, name, *a, **k) if name else self.call(obj, *a, **k))
        except (Skip, Violation):
            raise
        except Exception as ex:
            if misused(ex):
                raise Skip()
            return Outcome("raise", ex)

    def obj(self, cls, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def override(self, f, handler):
        pass

    def split_first(self, v):
        return v

    def to_tuple(self, v):
        return tuple(v)

    def as_dict(self, pairs):
        return dict(pairs)

    def as_set(self, v):
        return set(v)

    def flat(self, v):
        return [x for y in v for x in y]

    def item(self, v, n):
        return v[n]

    def global_value(self, module, name, value):
        self.undo.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def stub(self, owner, name, impl):
        "The code under test calls `impl` in place of the external function, however it refers to it."
        old = getattr(owner, name)
        places = [(owner, name)]
        for k, m in list(sys.modules.items()):
            if k.split(".")[0] == "pysqlsync":
                places.extend((m, n) for n, v in list(vars(m).items()) if v is old)
        for o, n in places:
            self.undo.append((o, n, getattr(o, n)))
            setattr(o, n, impl)

    def close(self):
        while self.undo:
            setattr(*self.undo.pop())

    def eq(self, a, b):
        return a == b

    def And(self, *c):
        return all(c)

    def Or(self, *c):
        return any(c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or b

    def is_none(self, v):
        return v is None

    def force(self, v):
        return v

    def truth(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Skip()

    def contains(self, c, x):
        return x in c

    def gt(self, a, b):
        return a > b

    def isinstance(self, v, cls):
        return isinstance(v, cls)

    def ensure(self, name, c, detail=""):
        self.checked += 1
        if isinstance(c, (list, tuple)):
            c = all(c)
        if not c:
            raise Violation(name, str(detail))
        return True

    def ensure_eq(self, name, a, b, detail=""):
        self.checked += 1
        if isinstance(a, list) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, list):
            pass
        if not (a == b):
            raise Violation(name, f"{detail}\nactual:   {a!r}\nexpected: {b!r}")
        return True

    def fail(self, name, detail=""):
        raise Violation(name, str(detail))

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def show(self, v):
        return repr(v)
