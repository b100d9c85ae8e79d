"""Meaning of the built-in functions and methods on symbolic values."""
from __future__ import annotations

import abc
import asyncio
import builtins
import collections
import contextlib
import copy
import dataclasses
import functools
import inspect
import itertools
import operator
import re
import types
import typing

import z3

from . import source
from .values import (
    NativeFn,
    Atom, Base, BoundMethod, Closure, Infeasible, Obj, Opaque, Poison, PyRaise, ReturnEx, SBool, SDict, Seg, Seq, SInt, SOpt,
    SStr, Sym, SymMethod, Text, Unsupported, pieces_of, rope,
)

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
MISSING = object()


def sym_bool(e, f):
    return e.simple(SBool(z3.simplify(f)))


# ---------------------------------------------------------------------- functions
def h_len(e, v):
    v = e.force(v)
    if isinstance(v, (Seq, SDict)):
        return e.length(v)
    if isinstance(v, SStr):
        n = e.fn("len_text", Text, z3.IntSort())(e.term(v))
        e.fact(n >= 0)
        e.fact((n > 0) == e.nonempty_text(v))
        return SInt(n)
    if isinstance(v, Opaque):
        n = e.fn("len_obj", Obj, z3.IntSort())(v.e)
        e.fact(n >= 0)
        return SInt(n)
    if isinstance(v, Sym):
        raise PyRaise(TypeError("object has no len()"))
    m = inspect.getattr_static(type(v), "__len__", None)
    if source.interpretable(m):
        return e.call(BoundMethod(v, m), [], {})
    try:
        return len(v)
    except TypeError as ex:
        raise PyRaise(ex)


def h_isinstance(e, v, cls):
    if isinstance(cls, (Seq,)):
        cls = e.native(cls)
    r = e.isinstance_(v, cls)
    return sym_bool(e, r)


def h_issubclass(e, a, b):
    a = e.force(a)
    if isinstance(a, Opaque):
        h = a.attrs.get("$subclass")
        if h is not None:
            return h(e, b)
        return SBool(e.fn(f"issub:{getattr(b, '__qualname__', b)}", Obj, z3.BoolSort())(a.e))
    try:
        return issubclass(a, e.native(b) if isinstance(b, Seq) else b)
    except TypeError as ex:
        raise PyRaise(ex)


def h_str(e, *args):
    if not args:
        return ""
    if len(args) > 1:
        raise Unsupported("str() with several arguments")
    return e.text(args[0])


def h_repr(e, v):
    v = e.force(v)
    if e.has_sym(v):
        return SStr([Atom(z3.Const(e.fresh("repr"), Text))])
    return repr(e.native(v))


def h_int(e, *args):
    if not args:
        return 0
    v = e.force(args[0])
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return e.simple(SInt(z3.If(v.e, 1, 0)))
    if isinstance(v, (SStr, Opaque)):
        ps = pieces_of(v) if isinstance(v, SStr) else ()
        if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].kind == "int":
            return ps[0].arg
        t = e.term(v) if isinstance(v, SStr) else e.fn("str_of_obj", Obj, Text)(v.e)
        return SInt(e.fn("int_of_text", Text, z3.IntSort())(t))
    try:
        return int(*args)
    except Exception as ex:
        raise PyRaise(ex)


def h_bool(e, v=False):
    return sym_bool(e, e.truth_formula(e.force(v)))


def h_list(e, v=()):
    return e.new_seq(list(e.to_seq(v)), "list")


def h_tuple(e, v=()):
    items = list(e.to_seq(v))
    if any(isinstance(i, Seg) for i in items):
        return e.new_seq(items, "tuple")
    return tuple(items)


def to_set(e, acc):
    items = e.to_seq(acc)
    if not any(isinstance(i, Seg) for i in items):
        out = []
        for i in items:
            if not any(e.choose(e.eq(i, o)) for o in out):
                out.append(i)
        return e.new_seq(out, "set")
    return e.new_seq(list(items), "set")


def h_set(e, v=()):
    return to_set(e, v)


def h_frozenset(e, v=()):
    return to_set(e, v)


def h_dict(e, *args, **kwargs):
    d = e.new_dict()
    if args:
        v = e.force(args[0])
        if isinstance(v, SDict):
            e.note_read(v)
            d.items = list(v.items)
        elif isinstance(v, dict):
            d.items = list(v.items())
        elif (pairs := e.mapping_items(v)) is not None:
            d.items = pairs
        else:
            d = e.dict_from_pairs(e.to_seq(v))
    for k, v in kwargs.items():
        e.dict_set(d, k, v)
    return d


def h_enumerate(e, v, start=0):
    items = e.to_seq(v)
    out = []
    n = start if isinstance(start, SInt) else z3.IntVal(start)
    n = n.e if isinstance(n, SInt) else n
    for i in items:
        if isinstance(i, Seg):
            pos = e.seg_pos(i)
            cases = [(c, tuple((e.simple(SInt(z3.simplify(n + pos))), x) for x in xs)) for c, xs in i.cases]
            out.append(Seg(i.base, cases, i.rev))
            n = n + e.seg_len(i)
        else:
            out.append((e.simple(SInt(z3.simplify(n))), i))
            n = n + 1
    return e.new_seq(out, "iter")


def h_zip(e, *seqs, **kw):
    lists = [list(e.to_seq(s)) for s in seqs]
    if not lists:
        return e.new_seq([], "iter")
    out = []
    while all(lists):
        heads = [l[0] for l in lists]
        if not any(isinstance(h, Seg) for h in heads):
            out.append(tuple(heads))
            for l in lists:
                l.pop(0)
        elif all(isinstance(h, Seg) for h in heads) and all(
            h.base is heads[0].base and h.rev == heads[0].rev for h in heads
        ):
            first = heads[0]
            e.canon(first.base)
            # aligned if every element contributes the same number of items to each
            cases = []
            for combo in itertools.product(*[h.cases for h in heads]):
                c = z3.simplify(z3.And(*[x[0] for x in combo]))
                if z3.is_false(c) or e.check(first.base.ne, c) == z3.unsat:
                    continue
                if any(isinstance(x, Seg) for _, xs in combo for x in xs):
                    raise Unsupported("zip of nested segments")
                ks = {len(xs) for _, xs in combo}
                if len(ks) != 1:
                    raise Unsupported("zip of sequences that are not aligned")
                cases.append((c, tuple(zip(*[xs for _, xs in combo]))))
            for h in heads:
                anyh = z3.Or(*[c for c, xs in h.cases if xs] or [FALSE])
                anyf = z3.Or(*[c for c, xs in first.cases if xs] or [FALSE])
                if not e.known(z3.Implies(first.base.ne, anyh == anyf)):
                    raise Unsupported("zip of sequences that are not aligned")
            out.append(Seg(first.base, cases, first.rev))
            for l in lists:
                l.pop(0)
        else:
            # a sequence of unknown length against something else: nothing known
            # a segment that is empty on this path can be skipped
            moved = False
            for l in lists:
                if isinstance(l[0], Seg) and e.known(z3.Not(e.seg_nonempty(l[0]))):
                    l.pop(0)
                    moved = True
            if not moved:
                raise Unsupported("zip of unrelated sequences")
    if kw.get("strict"):
        raise Unsupported("zip strict")
    return e.new_seq(out, "iter")


def h_range(e, *args):
    args = [e.force(a) for a in args]
    if not any(isinstance(a, SInt) for a in args):
        return range(*args)
    if len(args) == 1:
        a, b = z3.IntVal(0), args[0].e
    else:
        a, b = e.as_int(args[0]), e.as_int(args[1])
        if len(args) > 2:
            raise Unsupported("range with a symbolic step")
    # the length of a known sequence: use its positions
    h = e.memo.get(("rangehook",))
    for key, lst in list(e.memo.items()):
        if key[0] == "cnt":
            for c, n in lst:
                if z3.simplify(b - a).eq(z3.simplify(n)):
                    base = e.memo.get(("basebyname", key[1]))
                    if base is not None:
                        seg = Seg(base, [(c, (0,))])
                        pos = e.seg_pos(seg)
                        return e.new_seq([Seg(base, [(c, (e.simple(SInt(z3.simplify(a + pos))),))])], "iter")
    raise Unsupported("range of symbolic length")


def h_reversed(e, v):
    items = e.to_seq(v)
    out = []
    for i in reversed(list(items)):
        if isinstance(i, Seg):
            if any(isinstance(x, Seg) for _, xs in i.cases for x in xs):
                raise Unsupported("reversal of a segment with segments for each element")
            out.append(Seg(i.base, [(c, tuple(reversed(xs))) for c, xs in i.cases], not i.rev))
        else:
            out.append(i)
    return e.new_seq(out, "iter")


def h_groupby(e, v, key=None):
    "Groups of adjacent items of a sequence of known length."
    items = list(e.to_seq(v))
    if any(isinstance(i, Seg) for i in items):
        raise Unsupported("groups of a sequence of unknown length")
    groups = []
    for x in items:
        k = e.call(key, [x], {}) if key is not None else x
        if groups and e.choose(e.as_z3(e.eq(groups[-1][0], k))):
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    return e.new_seq([(k, e.new_seq(xs, "iter")) for k, xs in groups], "iter")


def h_any(e, v):
    ors = []
    for i in e.to_seq(v):
        if isinstance(i, Seg):
            conds = [z3.And(c, z3.Or(*[e.truth_formula(x) for x in xs])) for c, xs in i.cases if xs]
            ors.append(e.exists(i.base, z3.Or(*conds) if conds else FALSE))
        else:
            ors.append(e.truth_formula(i))
    return sym_bool(e, z3.Or(*ors) if ors else FALSE)


def h_all(e, v):
    ands = []
    for i in e.to_seq(v):
        if isinstance(i, Seg):
            conds = [z3.And(c, z3.Or(*[z3.Not(e.truth_formula(x)) for x in xs])) for c, xs in i.cases if xs]
            bad = z3.Or(*conds) if conds else FALSE
            ands.append(z3.Not(e.exists(i.base, bad)))
        else:
            ands.append(e.truth_formula(i))
    return sym_bool(e, z3.And(*ands) if ands else TRUE)


def h_minmax(which):
    def h(e, *args, **kw):
        args = [e.force(a) for a in args]
        if len(args) > 1 and any(isinstance(a, SInt) for a in args) and not kw:
            r = e.as_int(args[0])
            for a in args[1:]:
                x = e.as_int(a)
                r = z3.If(r >= x, r, x) if which is max else z3.If(r <= x, r, x)
            return SInt(z3.simplify(r))
        items = args[0] if len(args) == 1 else args
        items = e.to_seq(items)
        if not any(isinstance(i, Seg) for i in items) and any(isinstance(i, SInt) for i in items) and items:
            return h(e, *items) if len(items) > 1 else items[0]
        if len(args) == 1 and items and not any(map(e.has_sym, items)):
            # an iterator has been used up
            return e.call_native(which, [list(items)], kw)
        return e.call_native(which, args, kw)
    return h


def h_sum(e, v, start=0):
    items = e.to_seq(v)
    if any(isinstance(i, Seg) for i in items):
        raise Unsupported("sum over a sequence of unknown length")
    r = start
    for i in items:
        r = e.binop(__import__("ast").Add(), r, i)
    return r


def h_map(e, f, *seqs):
    if len(seqs) != 1:
        seqs = (h_zip(e, *seqs),)
        g = lambda x: e.call(f, list(x), {})
    else:
        g = lambda x: e.call(f, [x], {})
    acc = e.new_seq([], "list")
    e.run_loop(e.to_seq(seqs[0]), lambda x: e.append(acc, g(x)))
    return e.new_seq(acc.items, "iter")


def h_filter(e, f, seq):
    acc = e.new_seq([], "list")

    def body(x):
        if e.truth(x if f is None else e.call(f, [x], {})):
            e.append(acc, x)

    e.run_loop(e.to_seq(seq), body)
    return e.new_seq(acc.items, "iter")


def h_iter(e, v, *rest):
    if rest:
        raise Unsupported("iter with a sentinel")
    v = e.force(v)
    if isinstance(v, Seq) and v.kind in ("iter", "aiter"):
        return v
    if isinstance(v, (Seq, SDict)):
        return e.new_seq(list(e.to_seq(v)), "iter")
    if isinstance(v, (list, tuple, dict, str)) and type(v) in (list, tuple, dict, str):
        return e.new_seq(list(v), "iter")
    m = inspect.getattr_static(type(v), "__iter__", None)
    if source.interpretable(m):
        return e.call(BoundMethod(v, m), [], {})
    if isinstance(v, Opaque):
        return e.new_seq(list(e.to_seq(v)), "iter")
    return e.call_native(iter, [v], {})


def split_first(e, items):
    """
    Splits the first item off: returns (item, rest), or None if there is none. Forks on whether a leading segment is
    empty; a non-empty segment over elements that each give at most one item is split into its first item and the
    rest.
    """
    items = list(items)
    while items:
        if not isinstance(items[0], Seg):
            return items[0], items[1:]
        seg = items[0]
        if not e.choose(e.seg_nonempty(seg)):
            items.pop(0)
            continue
        base = seg.base
        if seg.rev or len(seg.cases) != 1 or not e.known(z3.Implies(base.ne, seg.cases[0][0])) or len(
                seg.cases[0][1]) != 1 or isinstance(seg.cases[0][1][0], Seg):
            return first_filtered(e, seg), [Poison("what follows the first item of a filtered sequence")]
        el = e.canon(base)
        tag = "head"
        w, prefix = e.instance(base, tag)
        if base.key is not None:
            e.add(e.mem(base)(e.term(base.key(w))))
        tail = e.memo.get(("tail", base.name))
        if tail is None:
            tail = Base(f"{base.name}.tail", base.make, base.key)
            tail.facts = []
            tel = e.canon(tail)
            for f in getattr(base, "facts", []):
                e.fact(z3.Implies(tail.ne, e.transfer(f, base.prefix("e"), tail.prefix("e"))))
            if base.key is not None:
                e.fact(z3.Implies(tail.ne, e.term(base.key(w)) != e.term(tail.key(tel))))
                e.fact(z3.Not(e.mem(tail)(e.term(base.key(w)))))
                e.fact(z3.Implies(tail.ne, e.mem(base)(e.term(tail.key(tel)))))
            e.memo[("tail", base.name)] = tail
        tel = e.canon(tail)
        item = seg.cases[0][1][0]
        m1, m2 = {}, {}
        e.parallel(el, w, m1)
        e.parallel(el, tel, m2)
        first = e.rename(item, base.prefix("e"), prefix, m1)
        rest = e.rename(item, base.prefix("e"), tail.prefix("e"), m2)
        return first, [Seg(tail, [(TRUE, (rest,))])] + items[1:]
    return None


def first_filtered(e, seg):
    "The item of the first element that gives one."
    cases = [(c, xs) for c, xs in seg.cases if xs]
    if seg.rev or any(len(xs) != 1 or isinstance(xs[0], Seg) for _, xs in cases):
        raise Unsupported("first item of a segment of several items")
    abrupt = [(c, {"items": [], "dict": [], "env": []}, ("return", xs[0])) for c, xs in cases]
    try:
        e.first_match(seg, [], abrupt, z3.Or(*[c for c, _ in cases]))
    except ReturnEx as r:
        return r.value
    raise Unsupported("first item of a filtered segment")


def h_next(e, it, *default):
    it = e.force(it)
    if isinstance(it, Seq):
        if it.kind not in ("iter", "aiter"):
            raise PyRaise(TypeError("object is not an iterator"))
        r = split_first(e, it.items)
        if r is None:
            if default:
                return default[0]
            raise PyRaise(StopAsyncIteration() if it.kind == "aiter" else StopIteration())
        e.trail.append(("items", it, it.items))
        it.items = r[1]
        return r[0]
    m = inspect.getattr_static(type(it), "__next__", None)
    if source.interpretable(m):
        try:
            return e.call(BoundMethod(it, m), [], {})
        except PyRaise as p:
            if default and isinstance(p.value, StopIteration):
                return default[0]
            raise
    return e.call_native(next, [it] + list(default), {})


def h_getattr(e, obj, name, *default):
    if not isinstance(name, str):
        obj = e.force(obj)
        if isinstance(obj, Opaque):
            h = obj.attrs.get("$getattr")
            if h is not None:
                return h(e, name)
            return Opaque(e.fn("getattr", Obj, Text, Obj)(obj.e, e.term(name)), object)
        raise Unsupported("getattr with a symbolic name")
    obj = e.force(obj)
    if isinstance(obj, Opaque) and "$getattr" in obj.attrs and name not in obj.attrs:
        return obj.attrs["$getattr"](e, name)
    return e.getattr(obj, name, *(default or (MISSING_ENGINE(),)))


def MISSING_ENGINE():
    from . import engine

    return engine.MISSING


def h_setattr(e, obj, name, value):
    if not isinstance(name, str):
        h = getattr(e, "setattr_hook", None)
        if h is not None:
            return h(e, obj, name, value)
        raise Unsupported("setattr with a symbolic name")
    e.setattr(obj, name, value)


MISSING_ATTRIBUTE = object()


def h_hasattr(e, obj, name):
    try:
        return e.getattr(obj, name, MISSING_ATTRIBUTE) is not MISSING_ATTRIBUTE
    except PyRaise as p:
        if isinstance(p.value, AttributeError):
            return False
        raise


def h_type(e, v, *rest):
    if rest:
        raise Unsupported("dynamic class")
    v = e.force(v)
    if isinstance(v, Opaque) and v.attrs.get("$cands") is None and not v.attrs.get("$exact"):
        return Opaque(e.fn("type_of", Obj, Obj)(v.e), type)
    return e.pytype(v)


def h_callable(e, v):
    v = e.force(v)
    if isinstance(v, (Closure, BoundMethod, SymMethod)):
        return True
    if isinstance(v, Opaque):
        return "$call" in v.attrs or sym_bool(e, e.fn("callable", Obj, z3.BoolSort())(v.e))
    return callable(v)


def h_reduce(e, f, seq, *init):
    items = list(e.to_seq(seq))
    if any(isinstance(i, Seg) for i in items):
        raise Unsupported("reduce over a sequence of unknown length")
    if init:
        acc = init[0]
    else:
        if not items:
            raise PyRaise(TypeError("reduce() of empty iterable with no initial value"))
        acc = items.pop(0)
    for i in items:
        acc = e.call(f, [acc, i], {})
    return acc


def h_cast(e, t, v):
    return v


def h_deepcopy(e, v, memo=None):
    seen = {}

    def cp(x):
        if isinstance(x, SOpt):
            return SOpt(x.none, cp(x.val))
        if isinstance(x, (SStr, SBool, SInt, Poison, Closure, BoundMethod, SymMethod)):
            return x
        if isinstance(x, (str, int, float, bool, bytes, type(None), type, types.FunctionType, types.ModuleType)):
            return x
        if id(x) in seen:
            return seen[id(x)]
        if isinstance(x, Opaque):
            r = Opaque(x.e, x.cls)
            r.attrs = dict(x.attrs)
            r.attrs["$copy"] = x
            seen[id(x)] = r
            e.born(r)
            return r
        if isinstance(x, Seg):
            return Seg(x.base, [(c, tuple(cp(i) for i in xs)) for c, xs in x.cases], x.rev)
        if isinstance(x, Seq):
            r = e.new_seq([], x.kind)
            seen[id(x)] = r
            r.items = [cp(i) for i in x.items]
            return r
        if isinstance(x, SDict):
            r = e.new_dict()
            seen[id(x)] = r
            r.items = [Seg(i.base, [(c, tuple((cp(k), cp(w)) for k, w in xs)) for c, xs in i.cases], i.rev)
                       if isinstance(i, Seg) else (cp(i[0]), cp(i[1])) for i in x.items]
            return r
        if isinstance(x, tuple):
            return tuple(cp(i) for i in x) if type(x) is tuple else x
        m = inspect.getattr_static(type(x), "__deepcopy__", None)
        if source.interpretable(m):
            return e.call(BoundMethod(x, m), [e.new_dict()], {})
        d = getattr(x, "__dict__", None)
        if type(x).__module__.startswith(("pysqlsync", "contracts")) and d is not None:
            r = object.__new__(type(x))
            seen[id(x)] = r
            e.born(r)
            for k, w in d.items():
                r.__dict__[k] = cp(w)
            return r
        return copy.deepcopy(x)

    return cp(v)


def h_copy(e, v):
    v = e.force(v)
    if isinstance(v, Seq):
        return e.new_seq(list(e.to_seq(v)), v.kind)
    if isinstance(v, SDict):
        return h_dict(e, v)
    d = getattr(v, "__dict__", None)
    if type(v).__module__.startswith(("pysqlsync", "contracts")) and d is not None and not isinstance(v, type):
        r = object.__new__(type(v))
        e.born(r)
        r.__dict__.update(d)
        return r
    return e.call_native(copy.copy, [v], {})


def h_is_dataclass_instance(e, v):
    v = e.force(v)
    if isinstance(v, Opaque):
        h = v.attrs.get("$is_dataclass")
        if h is not None:
            return h
        return sym_bool(e, e.fn("is_dataclass_instance", Obj, z3.BoolSort())(v.e))
    if isinstance(v, Sym):
        return False
    return not isinstance(v, type) and dataclasses.is_dataclass(v)


def h_replace(e, obj, **changes):
    kw = {}
    for f in dataclasses.fields(type(obj)):
        if not f.init:
            continue
        kw[f.name] = changes.pop(f.name) if f.name in changes else e.getattr(obj, f.name)
    kw.update(changes)
    return e.instantiate(type(obj), [], kw)


def h_sorted(e, v, key=None, reverse=False):
    items = list(e.to_seq(v))
    if any(isinstance(i, Seg) for i in items):
        h = getattr(e, "sorted_hook", None)
        if h is not None:
            r = h(e, items, key, reverse)
            if r is not NotImplemented:
                return r
        if len(items) == 1 and len(items[0].cases) == 1 and z3.is_true(z3.simplify(items[0].cases[0][0])):
            seg = items[0]
            p = e.permuted(seg.base, "sorted")
            memo = {}
            e.parallel(e.canon(seg.base), p.canon, memo)
            xs = tuple(e.rename(x, seg.base.prefix("e"), p.prefix("e"), memo) for x in seg.cases[0][1])
            return e.new_seq([Seg(p, [(TRUE, xs)])], "list")
        raise Unsupported("sorting a sequence of unknown length")
    keys = [e.call(key, [i], {}) for i in items] if key is not None else items
    if any(e.has_sym(k) for k in keys):
        raise Unsupported("sorting symbolic values")
    keys = [e.native(k) for k in keys]
    order = sorted(range(len(items)), key=lambda n: keys[n], reverse=bool(reverse))
    return e.new_seq([items[n] for n in order], "list")


def h_chain(e, *seqs):
    out = []
    for s in seqs:
        out.extend(e.to_seq(s))
    return e.new_seq(out, "iter")


def h_print(e, *a, **k):
    return None


def h_abs(e, v):
    v = e.force(v)
    if isinstance(v, SInt):
        return SInt(z3.If(v.e >= 0, v.e, -v.e))
    return abs(v)


def h_id(e, v):
    raise Unsupported("id()")


def h_wraps(e, *a, **k):
    return NativeFn(lambda f: f)


def h_partial(e, f, *args, **kw):
    return functools.partial(f, *args, **kw)


def h_islice(e, it, *args):
    stop = args[0] if len(args) == 1 else args[1]
    start = 0 if len(args) == 1 else args[0]
    if not isinstance(stop, int) or start not in (0, None) or len(args) > 2:
        raise Unsupported("islice")
    it = h_iter(e, it)
    out = []
    for _ in range(stop):
        try:
            out.append(h_next(e, it))
        except PyRaise as p:
            if isinstance(p.value, (StopIteration, StopAsyncIteration)):
                break
            raise
    return e.new_seq(out, "iter")


# ---------------------------------------------------------------------- methods
def hom_key(table):
    return tuple(sorted(table.items()))


def apply_hom(e, s, table, name):
    "Maps each character through the table (a dict char → text, identity elsewhere)."
    out = []
    for p in pieces_of(s):
        if isinstance(p, str):
            out.append("".join(table.get(c, c) for c in p))
        elif p.kind in ("int",):
            out.append(p)
        elif p.kind == "hom":
            base, t0 = p.arg
            t1 = dict(t0)
            comp = {}
            for c in set(t1) | set(table):
                comp[c] = "".join(table.get(x, x) for x in t1.get(c, c))
            comp = {c: v for c, v in comp.items() if v != c}
            out.append(hom_atom(e, base, comp))
        elif p.kind in ("text", "expr"):
            out.append(hom_atom(e, p, table))
        else:
            f = e.fn(f"hom{hom_key(table)}", Text, Text)
            out.append(Atom(f(p.e), "text"))
    return SStr(out) if any(not isinstance(p, str) for p in out) else "".join(out)


def hom_atom(e, base, table):
    if not table:
        return base
    f = e.fn(f"hom{hom_key(table)}", Text, Text)
    t = f(base.e)
    e.fact((t == e.lit("")) == (base.e == e.lit(""))) if all(table.values()) else None
    return Atom(t, "hom", (base, tuple(sorted(table.items()))))


def without_prefix(s, o, end=False):
    "The pieces of a text after (or before) an affix that it has, piece by piece; None unless it is known to have it."
    ps, qs = list(pieces_of(s)), list(pieces_of(o))
    at = -1 if end else 0
    while qs:
        if not ps:
            return None
        p, q = ps.pop(at), qs.pop(at)
        if isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if (p[len(p) - n:] != q[len(q) - n:]) if end else (p[:n] != q[:n]):
                return None
            p, q = (p[:len(p) - n], q[:len(q) - n]) if end else (p[n:], q[n:])
            if p:
                ps.insert(len(ps) if end else 0, p)
            if q:
                qs.insert(len(qs) if end else 0, q)
        elif isinstance(p, str) or isinstance(q, str) or not p.e.eq(q.e):
            return None
    return ps


def text_method(e, s, name, args, kw):
    args = [e.force(a) for a in args]
    if isinstance(s, str) and not any(e.has_sym(a) for a in args) and not any(e.has_sym(a) for a in kw.values()):
        nargs = [e.native(a) for a in args]
        try:
            return getattr(s, name)(*nargs, **kw)
        except Exception as ex:
            raise PyRaise(ex)
    if name == "join":
        return e.join_text(s, as_seq(e, args[0]))
    if name == "format":
        return format_text(e, s, args, kw)
    if name == "replace":
        old, new = args[0], args[1]
        if len(args) > 2:
            raise Unsupported("replace with a count")
        if isinstance(old, str) and isinstance(new, str):
            if len(old) == 1:
                return apply_hom(e, s, {old: new} if old != new else {}, "replace")
            return e.text_fn(f"replace:{old!r}:{new!r}", s)
        return e.text_fn("replace", s, old, new)
    if name == "translate":
        t = args[0]
        if isinstance(t, SDict):
            t = e.native(t)
        if isinstance(t, dict) and not e.has_sym(t):
            tab = {}
            for k, v in t.items():
                k = chr(k) if isinstance(k, int) else k
                v = "" if v is None else (chr(v) if isinstance(v, int) else v)
                if v != k:
                    tab[k] = v
            return apply_hom(e, s, tab, "translate")
        raise Unsupported("translate with a symbolic table")
    if name in ("strip", "lstrip", "rstrip"):
        return strip_text(e, s, name, args)
    if name in ("startswith", "endswith"):
        ps = pieces_of(s)
        a = args[0]
        opts = e.native(a) if isinstance(a, (tuple, Seq)) else (a,)
        ors = []
        for o in opts:
            edge = ps[0] if name == "startswith" and ps else ps[-1] if ps else ""
            if isinstance(o, str) and isinstance(edge, str) and ps:
                if name == "startswith" and (len(edge) >= len(o)):
                    ors.append(TRUE if edge.startswith(o) else FALSE)
                    continue
                if name == "endswith" and (len(edge) >= len(o)):
                    ors.append(TRUE if edge.endswith(o) else FALSE)
                    continue
            if without_prefix(s, o, name == "endswith") is not None:
                ors.append(TRUE)
                continue
            ors.append(e.fn(name, Text, Text, z3.BoolSort())(e.term(s), e.term(o)))
        return sym_bool(e, z3.Or(*ors))
    if name == "encode":
        o = Opaque(e.fn(f"encode:{args[0] if args else 'utf-8'}", Text, Obj)(e.term(s)), bytes)
        o.attrs["$text"] = s
        return o
    if name in ("lower", "upper", "casefold") and all(isinstance(p, str) or p.kind == "int" for p in pieces_of(s)):
        return rope(*[getattr(p, name)() if isinstance(p, str) else SStr([p]) for p in pieces_of(s)])
    if name in ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "expandtabs"):
        return e.text_fn(f"str.{name}", s)
    if name in ("removeprefix", "removesuffix"):
        ps = list(pieces_of(s))
        o = args[0]
        if isinstance(o, str) and ps and isinstance(ps[0 if name == "removeprefix" else -1], str):
            edge = ps[0 if name == "removeprefix" else -1]
            n = min(len(edge), len(o))
            if n and (edge[:n] != o[:n] if name == "removeprefix" else edge[-n:] != o[-n:]):
                return s
            if name == "removeprefix" and edge.startswith(o):
                ps[0] = edge[len(o):]
                return rope(*[SStr([p]) for p in ps])
            if name == "removesuffix" and edge.endswith(o):
                ps[-1] = edge[:len(edge) - len(o)]
                return rope(*[SStr([p]) for p in ps])
        rest = without_prefix(s, o, name == "removesuffix")
        if rest is not None:
            return rope(*[p if isinstance(p, str) else SStr([p]) for p in rest])
        return e.text_fn(f"str.{name}", s, o)
    if name in ("isdigit", "isalpha", "isidentifier", "isspace", "isnumeric", "isalnum", "isupper", "islower", "isascii"):
        r = e.fn(f"str.{name}", Text, z3.BoolSort())(e.term(s))
        if name in ("isdigit", "isspace", "isalpha", "isnumeric", "isalnum"):
            e.fact(z3.Implies(r, e.nonempty_text(s)))
        if name == "isspace" and len(pieces_of(s)) == 1 and isinstance(pieces_of(s)[0], Atom):
            strip_text(e, s, "strip", [])
        return SBool(r)
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        h = getattr(e, "split_hook", None)
        if h is not None:
            r = h(e, s, name, args, kw)
            if r is not NotImplemented:
                return r
        if name == "partition" and isinstance(args[0], str) and args[0]:
            if e.choose(e.as_z3(e.text_contains(s, args[0]))):
                return (text_before(e, s, args[0]), args[0], text_after(e, s, args[0]))
            return (s, "", "")
        if name == "split" and len(args) == 2 and isinstance(args[0], str) and args[0] and args[1] == 1:
            if e.choose(e.as_z3(e.text_contains(s, args[0]))):
                return e.new_seq([text_before(e, s, args[0]), text_after(e, s, args[0])])
            return e.new_seq([s])
        raise Unsupported(f"{name} of a symbolic text")
    if name in ("find", "index") and len(args) == 1 and isinstance(args[0], str) and args[0]:
        has = e.as_z3(e.text_contains(s, args[0]))
        if name == "index":
            if not e.choose(has):
                raise PyRaise(ValueError("substring not found"))
            r = e.fn("str.find", Text, Text, z3.IntSort())(e.term(s), e.term(args[0]))
            e.add(r >= 0)
            return SInt(r)
        r = e.fn("str.find", Text, Text, z3.IntSort())(e.term(s), e.term(args[0]))
        e.fact((r >= 0) == has)
        e.fact(r >= -1)
        return SInt(r)
    if name in ("find", "index", "count", "rfind"):
        return SInt(e.fn(f"str.{name}", Text, Text, z3.IntSort())(e.term(s), e.term(args[0])))
    if name == "__len__":
        return h_len(e, s)
    if name == "__str__":
        return s
    if name == "__contains__":
        return sym_bool(e, e.text_contains(s, args[0]))
    raise Unsupported(f"str.{name} on a symbolic text")


def known_split(e, s, sep):
    "The parts of a text around the first occurrence of the separator, if it is in known text and cannot begin earlier."
    ps = list(pieces_of(s))
    for i, p in enumerate(ps):
        if isinstance(p, str) and sep in p:
            k = p.index(sep)
            as_text = lambda xs: [x if isinstance(x, str) else SStr([x]) for x in xs]
            before = [*as_text(ps[:i]), p[:k]]
            if i == 0 or e.known(z3.Not(e.as_z3(e.text_contains(rope(*before, sep[:-1]), sep)))):
                return rope(*before), rope(p[k + len(sep):], *as_text(ps[i + 1:]))
            return None
    return None


def text_after(e, s, sep):
    r = known_split(e, s, sep)
    return r[1] if r is not None else e.text_fn(f"after:{sep!r}", s)


def text_before(e, s, sep):
    "The part of the text before the first occurrence of the separator, or all of it."
    r = known_split(e, s, sep)
    if r is not None:
        return r[0]
    r = e.text_fn(f"before:{sep!r}", s)
    t = e.term(s)
    b = e.term(r)
    has = e.as_z3(e.text_contains(s, sep))
    e.fact((b == t) == z3.Not(has))
    e.fact(z3.Not(e.as_z3(e.text_contains(r, sep))))
    return r


def h_re(which):
    "re.match, re.search, re.fullmatch of a constant pattern: an uninterpreted predicate on the text."
    def h(e, pattern, s, flags=0):
        s = e.force(s)
        import re
        if isinstance(s, str):
            return getattr(re, which)(pattern, s, flags)
        if not isinstance(s, SStr):
            raise PyRaise(TypeError("expected string or bytes-like object"))
        pat = pattern if isinstance(pattern, str) else getattr(pattern, "pattern", None)
        if not isinstance(pat, str):
            raise Unsupported("regular expression that is not constant")
        from . import regex
        ts = regex.tokens_of(pieces_of(s), lambda p: p.kind == "int" and e.known(p.arg.e >= 0))
        if ts is not None:
            return re_pieces(regex.Matcher(pattern, flags), ts, which)
        key = f"{which}:{pat!r}:{int(flags)}"
        p = e.fn(f"re.{key}", Text, z3.BoolSort())(e.term(s))
        m = re_char_class(pat) if which == "search" else None
        if m is not None:
            p = z3.Or(*[e.as_z3(e.text_contains(s, c)) for c in m])
        o = Opaque(e.fn(f"match.{key}", Text, Obj)(e.term(s)), re.Match)
        o.attrs["$match"] = (key, s)

        def group(i=0):
            t = e.text_fn(f"group.{key}.{i}", s)
            return SOpt(e.fn(f"nogroup.{key}.{i}", Text, z3.BoolSort())(e.term(s)), t) if i != 0 else t

        groups_of(o, group, re.compile(pattern, flags))
        return SOpt(z3.Not(p), o)
    return h


def h_re_sub(e, pattern, repl, text, count=0, flags=0):
    "Replaces the matches in a text that is known; what they are replaced with is computed by the code."
    import re
    text = e.force(text)
    if not isinstance(text, str) or isinstance(repl, (SStr, Opaque)):
        raise Unsupported("replacement in an unknown text")
    if isinstance(repl, str):
        return re.sub(pattern, repl, text, count, flags)
    out, at = [], 0
    for n, m in enumerate(re.finditer(pattern, text, flags)):
        if count and n >= count:
            break
        out += [text[at:m.start()], e.call(repl, [m], {})]
        at = m.end()
    return rope(*out, text[at:])


def re_pieces(matcher, ts, which):
    "A match of a text of literals and numbers."
    import re
    from . import regex
    r = matcher.match(ts, which)
    if r is None:
        return None
    names = matcher.tree.state.groupdict

    def group(i=0):
        i = names[i] if isinstance(i, str) else i
        if i not in r:
            return None
        (a, x), (b, y) = r[i]
        if x or y:
            raise Unsupported("regular expression: part of a number")
        return rope(*[SStr([t.atom]) if isinstance(t, regex.Run) else t for t in ts[a:b]])

    o = Opaque(z3.Const(f"match!{id(r)}", Obj), re.Match)
    groups_of(o, group, matcher.tree.state)
    return o


def groups_of(o, group, pattern):
    "The ways to ask a match for its groups. The pattern has as many groups, some with names."
    count = pattern.groups if hasattr(pattern, "groupindex") else pattern.groups - 1
    names = pattern.groupindex if hasattr(pattern, "groupindex") else pattern.groupdict

    def get(*ns):
        r = tuple(group(names[n] if isinstance(n, str) else n) for n in ns or (0,))
        return r if len(r) > 1 else r[0]

    def groups(default=None):
        if default is not None:
            raise Unsupported("default of groups")
        return tuple(group(n + 1) for n in range(count))

    o.attrs["group"] = NativeFn(get)
    o.attrs["$item"] = lambda e, n: get(n)
    o.attrs["groups"] = NativeFn(groups)
    o.attrs["groupdict"] = NativeFn(lambda: {n: group(names[n]) for n in names})


def re_char_class(pat):
    "The characters of a pattern that is a single class of literal characters."
    import re
    try:
        import re._parser as rp
    except ImportError:
        return None
    try:
        t = list(rp.parse(pat))
    except re.error:
        return None
    if len(t) == 1 and str(t[0][0]) == "IN" and all(str(x[0]) == "LITERAL" for x in t[0][1]):
        return [chr(x[1]) for x in t[0][1]]
    if len(t) == 1 and str(t[0][0]) == "LITERAL":
        return [chr(t[0][1])]
    return None


def format_text(e, s, args, kw):
    "str.format with a template that is known."
    import string

    if not isinstance(s, str):
        raise Unsupported("str.format of a symbolic template")
    out, auto = [], 0
    for text, field, spec, conversion in string.Formatter().parse(s):
        out.append(text)
        if field is None:
            continue
        m = re.fullmatch(r"(\w*)((?:\.\w+)*)", field)
        if not m or "{" in (spec or ""):
            raise Unsupported("str.format")
        first, rest = m.groups()
        if first == "":
            first, auto = str(auto), auto + 1
        try:
            x = args[int(first)] if first.isdigit() else kw[first]
        except (IndexError, KeyError) as ex:
            raise PyRaise(ex)
        for a in rest.split(".")[1:]:
            x = e.getattr(x, a)
        out.append(e.formatted(x, ord(conversion) if conversion else -1, spec or None))
    return rope(*out)


def solid_items(e, items):
    "No text of the list is empty, or starts or ends with white space."
    def edge(p, left):
        if isinstance(p, str):
            return bool(p) and not p[0 if left else -1].isspace()
        if p.kind == "join":
            return e.known(e.nonempty_text(SStr([p]))) and solid_items(e, p.arg[1].items)
        return p.kind in ("ident", "bident", "lit", "int", "stmt", "coldef", "type")

    for i in items:
        if isinstance(i, Seg):
            for c, xs in i.cases:
                e.push()
                try:
                    e.solver.add(i.base.ne, c)
                    if not solid_items(e, xs):
                        return False
                finally:
                    e.pop()
        elif isinstance(i, (str, SStr)):
            ps = pieces_of(i)
            if not ps or not edge(ps[0], True) or not edge(ps[-1], False):
                return False
        else:
            return False
    return True


def strip_text(e, s, name, args):
    chars = args[0] if args and args[0] is not None else None
    if chars is not None and not isinstance(chars, str):
        raise Unsupported("strip of symbolic characters")
    ps = list(pieces_of(s))

    def lit_strip(x, side):
        return getattr(x, side)(chars) if chars is not None else getattr(x, side)()

    solid = ("ident", "bident", "lit", "int", "stmt", "coldef", "type")
    if name in ("strip", "lstrip"):
        while ps and isinstance(ps[0], str):
            x = lit_strip(ps[0], "lstrip")
            if x:
                ps[0] = x
                break
            ps.pop(0)
    if name in ("strip", "rstrip"):
        while ps and isinstance(ps[-1], str):
            x = lit_strip(ps[-1], "rstrip")
            if x:
                ps[-1] = x
                break
            ps.pop()
    if not ps:
        return ""
    def is_solid(p):
        if p.kind == "pct" and chars and not any(c.isalnum() or c in "%-._~" for c in chars):
            return True
        return p.kind in solid or (chars is None and p.kind == "join" and solid_items(e, p.arg[1].items))

    need_left = name in ("strip", "lstrip") and not isinstance(ps[0], str) and not is_solid(ps[0])
    need_right = name in ("strip", "rstrip") and not isinstance(ps[-1], str) and not is_solid(ps[-1])
    if not need_left and not need_right:
        return rope(*[SStr([p]) for p in ps])
    if len(ps) == 1:
        a = ps[0]
        t = e.text_fn(f"str.{name}:{chars!r}", SStr([a]))
        e.fact(z3.Implies(e.term(SStr([a])) == e.lit(""), e.term(t) == e.lit("")))
        if chars is None:
            # nothing is left of what is white space only, whichever side it is taken from
            blank = z3.And(e.fn("str.isspace", Text, z3.BoolSort())(a.e), a.e != e.lit(""))
            e.fact((e.term(t) == e.lit("")) == z3.Or(blank, a.e == e.lit("")))
        return t
    out = list(ps)
    if need_left:
        out[0] = e.text_fn(f"str.lstrip:{chars!r}", SStr([ps[0]])).pieces[0]
    if need_right:
        out[-1] = e.text_fn(f"str.rstrip:{chars!r}", SStr([ps[-1]])).pieces[0]
    return rope(*[SStr([p]) for p in out])


def as_seq(e, v):
    v = e.force(v)
    if isinstance(v, (Seq,)) and v.kind not in ("iter", "aiter"):
        return v
    return e.new_seq(list(e.to_seq(v)), "list")


def list_subclass(e, s):
    if s.kind in ("list", "tuple", "set", "iter", "aiter"):
        return None
    return e.memo.get(("listclass", s.kind))


def seq_method(e, s, name, args, kw, base_only=False):
    k = None if base_only else list_subclass(e, s)
    if k is not None:
        st = inspect.getattr_static(k, name, None)
        if source.interpretable(st):
            return e.call(BoundMethod(s, st), args, kw)
    kind = s.kind
    if kind in ("iter", "aiter"):
        if name in ("__next__", "__anext__", "send"):
            return h_next(e, s)
        if name in ("__iter__", "__aiter__"):
            return s
        if name in ("close", "aclose"):
            return None
        raise PyRaise(AttributeError(name))
    if name in ("__iter__",):
        return h_iter(e, s)
    if name == "__len__":
        return h_len(e, s)
    if name == "__contains__":
        return sym_bool(e, e.contains(s, args[0]))
    if name == "index" and kind != "set":
        return seq_index_of(e, s, args[0])
    if name == "count":
        raise Unsupported("count")
    if name == "copy":
        return e.new_seq(list(e.to_seq(s)), kind)
    if kind == "tuple":
        raise PyRaise(AttributeError(name))
    if kind == "set":
        return set_method(e, s, name, args, kw)
    if name == "append":
        e.append(s, args[0])
        return None
    if name == "extend":
        v = e.force(args[0])
        for i in list(e.to_seq(v)):
            e.append(s, i)
        return None
    if name == "insert":
        if args[0] == 0 or s.concrete():
            e.trail.append(("items", s, s.items))
            items = list(s.items)
            items.insert(args[0], args[1])
            s.items = items
            return None
        raise Unsupported("insert")
    if name == "pop":
        if not s.items:
            raise PyRaise(IndexError("pop from empty list"))
        e.note_read(s)
        if not args or args[0] == -1:
            if isinstance(s.items[-1], Seg):
                raise Unsupported("pop from a segment")
            e.trail.append(("items", s, s.items))
            v = s.items[-1]
            s.items = s.items[:-1]
            return v
        if args[0] == 0:
            r = split_first(e, s.items)
            if r is None:
                raise PyRaise(IndexError("pop from empty list"))
            e.trail.append(("items", s, s.items))
            s.items = r[1]
            return r[0]
        raise Unsupported("pop")
    if name == "clear":
        e.trail.append(("items", s, s.items))
        s.items = []
        return None
    if name == "sort":
        r = h_sorted(e, s, **kw)
        e.trail.append(("items", s, s.items))
        s.items = list(r.items)
        return None
    if name == "reverse":
        r = h_reversed(e, s)
        e.trail.append(("items", s, s.items))
        s.items = list(r.items)
        return None
    if name == "remove":
        for n, i in enumerate(s.items):
            if isinstance(i, Seg):
                raise Unsupported("remove from a segment")
            if e.choose(e.eq(i, args[0])):
                e.trail.append(("items", s, s.items))
                s.items = s.items[:n] + s.items[n + 1:]
                return None
        raise PyRaise(ValueError("list.remove(x): x not in list"))
    raise PyRaise(AttributeError(name)) if not hasattr(list, name) else Unsupported(f"list.{name}")


def seq_index_of(e, s, x):
    n = z3.IntVal(0)
    for i in e.items_of(s):
        if isinstance(i, Seg):
            if e.choose(e.seg_contains(i, x)):
                # the position of the member within the segment
                h = getattr(e, "seg_index_hook", None)
                if h is not None:
                    return h(e, i, x, n)
                f = e.fn(f"pos:{i.base.name}", Text, z3.IntSort())
                p = f(e.key_term(x))
                e.fact(p >= 0)
                e.fact(z3.Implies(e.seg_contains(i, x), p < e.seg_len(i)))
                return e.simple(SInt(n + p))
            n = n + e.seg_len(i)
        else:
            if e.choose(e.eq(i, x)):
                return e.simple(SInt(z3.simplify(n)))
            n = n + 1
    raise PyRaise(ValueError("not in list"))


def set_method(e, s, name, args, kw):
    if name == "add":
        if len(e.stack) > 1 or not s.concrete():
            # duplicates do not change what a set contains
            e.append(s, args[0])
            return None
        if not e.choose(e.contains(s, args[0])):
            e.append(s, args[0])
        return None
    if name == "update":
        for a in args:
            for i in list(e.to_seq(a)):
                if isinstance(i, Seg) or not s.concrete() or len(e.stack) > 1:
                    e.append(s, i)
                else:
                    set_method(e, s, "add", [i], {})
        return None
    if name in ("discard", "remove"):
        if s.concrete():
            for n, i in enumerate(s.items):
                if e.choose(e.eq(i, args[0])):
                    e.trail.append(("items", s, s.items))
                    s.items = s.items[:n] + s.items[n + 1:]
                    return None
            if name == "remove":
                raise PyRaise(KeyError(args[0]))
            return None
        out = []

        def without(i):
            cases = []
            for c, xs in i.cases:
                if len(xs) > 1 and any(isinstance(x, Seg) for x in xs):
                    raise Unsupported("discard from a segment of mixed items")
                for x in xs:
                    if isinstance(x, Seg):
                        cases.append((c, (without(x),)))
                    else:
                        cases.append((z3.simplify(z3.And(c, z3.Not(e.eq(x, args[0])))), (x,)))
            return Seg(i.base, cases, i.rev)

        for i in s.items:
            if isinstance(i, Seg):
                out.append(without(i))
            elif not e.choose(e.eq(i, args[0])):
                out.append(i)
        e.trail.append(("items", s, s.items))
        s.items = out
        return None
    if name in ("intersection_update", "intersection", "difference", "difference_update", "union", "issubset", "issuperset"):
        if name == "union":
            return e.new_seq(list(s.items) + [i for a in args for i in e.to_seq(a)], "set")
        if name == "issubset":
            return h_all(e, h_map(e, lambda x: x, s)) if False else _subset(e, s, args[0])
        keep_in = name.startswith("intersection")
        acc = e.new_seq([], "list")
        other = e.force(args[0])
        if isinstance(other, Seq) and other.kind in ("iter",):
            other = e.new_seq(list(e.to_seq(other)), "list")

        def body(x):
            if e.choose(e.contains(other, x)) == keep_in:
                e.append(acc, x)

        e.run_loop(e.to_seq(s), body)
        if name.endswith("_update"):
            e.trail.append(("items", s, s.items))
            s.items = acc.items
            return None
        return e.new_seq(acc.items, "set")
    if name == "pop" and s.concrete():
        if not s.items:
            raise PyRaise(KeyError("pop from an empty set"))
        items = list(s.items)
        n = 0
        while n < len(items) - 1 and not e.choose(z3.Bool(e.fresh("pop"))):  # any of them
            n += 1
        e.trail.append(("items", s, s.items))
        s.items = items[:n] + items[n + 1:]
        return items[n]
    if name == "clear":
        e.trail.append(("items", s, s.items))
        s.items = []
        return None
    raise Unsupported(f"set.{name}")


def _subset(e, a, b):
    ands = []
    for i in e.to_seq(a):
        if isinstance(i, Seg):
            raise Unsupported("issubset of a segment")
        ands.append(e.contains(b, i))
    return sym_bool(e, z3.And(*ands) if ands else TRUE)


def dict_method(e, d, name, args, kw):
    if name == "get":
        v = e.dict_get(d, e.force(args[0]))
        if v is e_missing():
            return args[1] if len(args) > 1 else kw.get("default")
        return v
    if name == "keys":
        e.note_read(d)
        return e.new_seq(e.map_items(d.items, lambda kv: kv[0]), "list" if False else "list")
    if name == "values":
        e.note_read(d)
        return e.new_seq(e.map_items(d.items, lambda kv: kv[1]), "list")
    if name == "items":
        e.note_read(d)
        return e.new_seq(e.map_items(d.items, lambda kv: (kv[0], kv[1])), "list")
    if name == "setdefault":
        v = e.dict_get(d, e.force(args[0]))
        if v is e_missing():
            v = args[1] if len(args) > 1 else None
            e.trail.append(("dset", d, d.items))
            d.items = d.items + [(args[0], v)]
        return v
    if name == "pop":
        v = e.dict_pop(d, e.force(args[0]))
        if v is e_missing():
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError(args[0]))
        return v
    if name == "update":
        for a in args:
            a = e.force(a)
            entries = a.items if isinstance(a, SDict) else list(a.items()) if isinstance(a, dict) else e.to_seq(a)
            for it in entries:
                if isinstance(it, Seg):
                    e.check_keyed(it)
                    e.trail.append(("dset", d, d.items))
                    d.items = d.items + [it]
                else:
                    e.dict_set(d, it[0], it[1])
        for k, v in kw.items():
            e.dict_set(d, k, v)
        return None
    if name == "copy":
        return h_dict(e, d)
    if name == "clear":
        e.trail.append(("dset", d, d.items))
        d.items = []
        return None
    if name == "__contains__":
        return sym_bool(e, e.dict_contains(d, args[0]))
    if name == "__iter__":
        return h_iter(e, d)
    if name == "__len__":
        return h_len(e, d)
    if name == "__getitem__":
        return e.subscript(d, args[0])
    raise Unsupported(f"dict.{name}")


def e_missing():
    from . import engine

    return engine.MISSING


def lift(e, obj):
    "An interpreter container with the contents of a native one."
    if type(obj) is list:
        return e.new_seq(list(obj), "list")
    if type(obj) in (set, frozenset):
        return e.new_seq(list(obj), "set")
    if type(obj) is dict:
        d = e.new_dict()
        d.items = list(obj.items())
        return d
    if type(obj) is tuple:
        return Seq(list(obj), "tuple")
    raise Unsupported(f"method of {type(obj).__name__}")


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "update", "discard",
            "setdefault", "popitem", "intersection_update", "difference_update"}


def sym_call(e, obj, name, args, kw):
    if isinstance(obj, (str, SStr)):
        return text_method(e, obj, name, list(args), kw)
    if isinstance(obj, Seq):
        return seq_method(e, obj, name, list(args), kw)
    if isinstance(obj, SDict):
        return dict_method(e, obj, name, list(args), kw)
    if isinstance(obj, (list, dict, set, frozenset, tuple)):
        if name in MUTATORS:
            if e.has_sym(args) or len(e.stack) > 1:
                raise Unsupported(f"mutation of a native container ({name})")
            try:
                return getattr(obj, name)(*[e.native(a) for a in args], **kw)
            except Exception as ex:
                raise PyRaise(ex)
        if not any(e.has_sym(a) for a in args):
            try:
                r = getattr(obj, name)(*[e.native(a) for a in args], **kw)
            except AttributeError as ex:
                raise PyRaise(ex)
            except Exception as ex:
                raise PyRaise(ex)
            return r
        return sym_call(e, lift(e, obj), name, args, kw)
    if isinstance(obj, (SInt, SBool)):
        raise Unsupported(f"method {name} of a number")
    raise Unsupported(f"method {name}")


def at_position(e, items, idx):
    "The item at the position of an element of a sequence, if the items are those of the same sequence."
    n = z3.IntVal(0)
    for i in items:
        if isinstance(i, Seg) and not i.rev:
            i.base in e.active or e.canon(i.base)
            for c, p in e.memo.get(("pos", i.base.name, False), []):
                if z3.simplify(n + p).eq(z3.simplify(idx.e)):
                    sel = z3.simplify(z3.Or(*[c2 for c2, xs in i.cases if xs] or [FALSE]))
                    if any(len(xs) > 1 or any(isinstance(x, Seg) for x in xs) for _, xs in i.cases) \
                            or e.same_cond(i.base, sel, [(c, p)]) is None:
                        return MISSING
                    for c2, xs in i.cases:
                        if xs and e.choose(c2):
                            return xs[0]
                    return MISSING
            n = n + e.seg_len(i)
        elif isinstance(i, Seg):
            return MISSING
        else:
            n = n + 1
    return MISSING


def sym_index(e, obj, idx):
    items = e.items_of(obj) if isinstance(obj, Seq) else list(obj)
    kind = obj.kind if isinstance(obj, Seq) else type(obj).__name__
    if isinstance(idx, slice):
        lo, hi, st = idx.start, idx.stop, idx.step
        if not any(isinstance(i, Seg) for i in items) and not any(isinstance(x, Sym) for x in (lo, hi, st)):
            r = items[idx]
        elif lo in (None, 0) and hi is None and st in (None, 1):
            r = list(items)
        elif isinstance(lo, int) and lo > 0 and hi is None and st in (None, 1):
            r = list(items)
            for _ in range(lo):
                sp = split_first(e, r)
                r = sp[1] if sp is not None else []
        elif st == -1 and lo is None and hi is None:
            return e.new_seq(h_reversed(e, e.new_seq(items, "list")).items, kind)
        else:
            raise Unsupported("slice of a sequence of unknown length")
        if kind == "tuple" and not any(isinstance(i, Seg) for i in r):
            return tuple(r)
        return e.new_seq(r, kind)
    if isinstance(idx, int):
        if not any(isinstance(i, Seg) for i in items):
            try:
                return items[idx]
            except IndexError as ex:
                raise PyRaise(ex)
        if idx >= 0:
            rest = items
            for n in range(idx + 1):
                sp = split_first(e, rest)
                if sp is None:
                    raise PyRaise(IndexError("index out of range"))
                v, rest = sp
            return v
        if idx == -1 and not isinstance(items[-1], Seg):
            return items[-1]
        raise Unsupported("negative index into a sequence of unknown length")
    if isinstance(idx, SInt):
        v = at_position(e, items, idx)
        if v is not MISSING:
            return v
    if isinstance(idx, SInt):
        h = getattr(e, "index_hook", None)
        if h is not None:
            r = h(e, obj, items, idx)
            if r is not NotImplemented:
                return r
        if not any(isinstance(i, Seg) for i in items):
            for n, x in enumerate(items):
                if e.choose(idx.e == n):
                    return x
            if e.choose(z3.And(idx.e < 0, idx.e >= -len(items))):
                raise Unsupported("negative symbolic index")
            raise PyRaise(IndexError("index out of range"))
        raise Unsupported("symbolic index into a sequence of unknown length")
    raise PyRaise(TypeError("indices must be integers or slices"))


def sym_text_index(e, obj, idx):
    if isinstance(obj, str) and not e.has_sym(idx) and not isinstance(idx, slice):
        try:
            return obj[idx]
        except Exception as ex:
            raise PyRaise(ex)
    if isinstance(obj, str) and isinstance(idx, slice) and not any(isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step)):
        return obj[idx]
    if isinstance(idx, slice) and idx.step is None:
        ps = list(pieces_of(obj))
        lo, hi = idx.start or 0, idx.stop
        if lo == 0 and isinstance(hi, SInt) and z3.is_app(hi.e) and hi.e.decl().name() == "str.find" \
                and hi.e.arg(0).eq(e.term(obj)):
            for sep, c in e.literals.items():
                if c.eq(hi.e.arg(1)):
                    if e.choose(e.as_z3(e.text_contains(obj, sep))):
                        return text_before(e, obj, sep)
                    raise Unsupported("slice up to find() without an occurrence")
        if isinstance(lo, int) and lo >= 0 and (hi is None or (isinstance(hi, int) and hi < 0)):
            ok = True
            if lo:
                if isinstance(ps[0], str) and len(ps[0]) >= lo:
                    ps[0] = ps[0][lo:]
                else:
                    ok = False
            if hi:
                if isinstance(ps[-1], str) and len(ps[-1]) >= -hi:
                    ps[-1] = ps[-1][:hi]
                else:
                    ok = False
            if ok:
                return rope(*[SStr([p]) for p in ps if not isinstance(p, str) or p])
        return e.text_fn(f"slice:{lo}:{hi}", obj)
    raise Unsupported("index into a symbolic text")


# ---------------------------------------------------------------------- list subclasses reached through super()
def h_list_append(e, s, x):
    if isinstance(s, Seq):
        e.append(s, x)
        return None
    return list.append(s, x)


def h_list_extend(e, s, it):
    if isinstance(s, Seq):
        for i in list(e.to_seq(it)):
            e.append(s, i)
        return None
    return list.extend(s, it)


def h_object_init(e, obj, *a, **k):
    return None


def h_exc_init(e, obj, *args, **kw):
    obj.args = tuple(args)
    return None


class FakeLoop:
    def run_in_executor(self, pool, fn, *args):
        raise NotImplementedError


def install(e):
    import re

    H = e.builtin_handlers
    for w in ("match", "search", "fullmatch"):
        H[getattr(re, w)] = h_re(w)
    H[re.sub] = h_re_sub
    H.update({
        len: h_len, isinstance: h_isinstance, issubclass: h_issubclass, str: h_str, repr: h_repr, int: h_int,
        bool: h_bool, list: h_list, tuple: h_tuple, set: h_set, frozenset: h_frozenset, dict: h_dict,
        enumerate: h_enumerate, zip: h_zip, range: h_range, reversed: h_reversed, any: h_any, all: h_all,
        min: h_minmax(min), max: h_minmax(max), sum: h_sum, map: h_map, filter: h_filter, iter: h_iter, next: h_next,
        aiter: h_iter, anext: h_next,
        getattr: h_getattr, object.__getattribute__: h_getattr, setattr: h_setattr, hasattr: h_hasattr, type: h_type, callable: h_callable,
        functools.reduce: h_reduce, typing.cast: h_cast, copy.deepcopy: h_deepcopy, copy.copy: h_copy,
        dataclasses.replace: h_replace, sorted: h_sorted, itertools.chain: h_chain, itertools.groupby: h_groupby, print: h_print, abs: h_abs,
        id: h_id, functools.wraps: h_wraps, functools.partial: h_partial, itertools.islice: h_islice,
        list.append: h_list_append, list.extend: h_list_extend, object.__init__: h_object_init,
        BaseException.__init__: h_exc_init, Exception.__init__: h_exc_init, RuntimeError.__init__: h_exc_init,
        ValueError.__init__: h_exc_init, TypeError.__init__: h_exc_init, KeyError.__init__: h_exc_init,
        itertools.chain.from_iterable: lambda e, v: h_chain(e, *e.to_seq(v)),
    })
    H[dict.keys] = lambda e, d: e.call(SymMethod(d, "keys"), [], {})
    H[dict.values] = lambda e, d: e.call(SymMethod(d, "values"), [], {})
    H[dict.items] = lambda e, d: e.call(SymMethod(d, "items"), [], {})
    H[str.strip] = lambda e, s, *a: text_method(e, s, "strip", list(a), {})
    try:
        from strong_typing.inspection import is_dataclass_instance

        H[is_dataclass_instance] = h_is_dataclass_instance
    except ImportError:
        pass
    e.sym_methods.update({"call": sym_call, "base": lambda e, s, n, a, k: seq_method(e, s, n, a, k, True), "index": sym_index, "text_index": sym_text_index, "to_set": to_set})
