"""P09 Merging database models is a conflict-checked union that copies."""
from __future__ import annotations

import copy
import dataclasses
from typing import Any

from pysqlsync.formation import object_types as ot
from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from contracts import ddl
from contracts.common import key_of, qualified, sql_type
from pyvc.contract import contract

O = "pysqlsync/formation/object_types.py::"


# ---------------------------------------------------------------------- merging
@dataclasses.dataclass
class Thing:
    "A named object whose definition is of any kind, and can be changed."

    name: LocalId
    definition: Any
    parts: list


def thing(g, p):
    d = g.opaque(f"{p}.definition") if g.symbolic else g.choice("definition", ["x", "y"])
    return g.new(Thing, g.new(LocalId, g.name_text(f"{p}.name")), d, g.list_of(d))


def mutable(v, seen):
    "The objects that can be changed in place through the value."
    from pyvc.values import Seg, Seq, SDict, SOpt, Sym

    if id(v) in seen:
        return seen
    if isinstance(v, SOpt):
        return mutable(v.val, seen)
    if isinstance(v, (list, tuple)):
        if isinstance(v, list):
            seen[id(v)] = v
        for x in v:
            mutable(x, seen)
    elif isinstance(v, (Seq, SDict)):
        seen[id(v)] = v
        for x in v.items:
            for y in ([y for _, ys in x.cases for y in ys] if isinstance(x, Seg) else [x]):
                mutable(y, seen)
    elif isinstance(v, dict):
        seen[id(v)] = v
        for k, x in v.items():
            mutable(x, seen)
    elif isinstance(v, Sym) or isinstance(v, (LocalId, QualifiedId, PrefixedId)):
        pass
    elif hasattr(v, "__dict__") and not isinstance(v, type):
        seen[id(v)] = v
        for x in vars(v).values():
            mutable(x, seen)
    return seen


def unshared(g, what, a, b):
    xs, ys = mutable(a, {}), mutable(b, {})
    both = [xs[k] for k in xs if k in ys]
    g.ensure(what, not both, both[:1])


def pair(g, xs, ys, x):
    return g.has_key(ys, x.name.id)


def same_definition(g, xs, y):
    "The existing object of that name is defined alike."
    x = g.at_key(xs, y.name.id)
    return g.And(g.eq(x.definition, y.definition), g.eq(g.item(x.parts, 0), g.item(y.parts, 0)))


def conflicts(g, xs, ys):
    if not g.symbolic:
        return any(x.name == y.name and x != y for x in xs for y in ys)
    return g.gt(g.length(g.filter(ys, lambda y: g.And(g.has_key(xs, y.name.id), g.Not(same_definition(g, xs, y))))), 0)


KINDS = ("enums", "structs", "tables")


@contract("P09", "merge_namespace", [O + "Namespace.merge", "pysqlsync/formation/object_dict.py::ObjectDict.add"], covers=("merged", "conflict"))
def merge_namespace(g):
    "Definitions of one kind are merged at a time; the other kinds are empty."
    kind = g.choice("kind", KINDS)
    xs = g.seq("x", lambda p: thing(g, p), key_of)
    ys = g.seq("y", lambda p: thing(g, p), key_of)
    empty = lambda: g.new(ObjectDict, g.list_of())
    space = lambda v: g.obj(ot.Namespace, name=g.new(LocalId, "ns"), **{k: g.new(ObjectDict, v) if k == kind else empty() for k in KINDS})
    a, b = space(xs), space(ys)
    clash = conflicts(g, xs, ys)
    before = copy.deepcopy(ys) if not g.symbolic else ys
    r = g.outcome(a, "merge", b)
    g.ensure("refused exactly if an object of the same name is defined differently", g.eq(r.raised, clash), r)
    g.ensure_eq("what is merged in is not changed", g.to_list(g.method(getattr(b, kind), "values")), before)
    if r.raised:
        g.ensure("a conflict is reported", isinstance(r.value, ot.FormationError), r)
        g.cover("conflict")
        return
    merged = g.to_list(g.method(getattr(a, kind), "values"))
    new = g.filter(before, lambda y: g.Not(g.has_key(xs, y.name.id)))
    g.ensure_eq("the objects of both, once, in order", merged, g.list_of(*g.items(xs), *g.items(new)))
    unshared(g, "later changes do not show through", a, b)
    for k in KINDS:
        if k != kind:
            g.ensure_eq("nothing else", g.length(getattr(a, k)), 0)
    g.cover("merged")


class Space:
    "A schema; merging is recorded."

    def __init__(self, name, parts, log):
        self.name = name
        self.parts = parts
        self.log = log

    def merge(self, op):
        self.log.append((self.name.id, self.parts[0], op.name.id, op.parts[0]))

    def __deepcopy__(self, memo):
        return Space(self.name, list(self.parts), self.log)


@contract("P09", "merge_catalog", [O + "Catalog.merge"], covers=("merged",))
def merge_catalog(g):
    "Schemas of the same name are merged, others are copied."
    log = g.list_of()
    make = lambda p: g.new(Space, g.new(LocalId, g.name_text(f"{p}.name")), g.list_of(g.opaque(f"{p}.parts")), log)
    xs = g.seq("x", make, key_of)
    ys = g.seq("y", make, key_of)
    a, b = g.new(ot.Catalog, xs), g.new(ot.Catalog, ys)
    r = g.outcome(a, "merge", b)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    merged = g.to_list(g.method(a.namespaces, "values"))
    name = lambda s: s.name.id
    new = g.filter(ys, lambda y: g.Not(g.has_key(xs, y.name.id)))
    g.ensure_eq("the schemas of both, once, in order", g.map(merged, name), g.list_of(*g.items(g.map(xs, name)), *g.items(g.map(new, name))))
    g.ensure_eq("with what they consist of", g.map(merged, lambda s: g.item(s.parts, 0)),
                g.list_of(*g.items(g.map(xs, lambda s: g.item(s.parts, 0))), *g.items(g.map(new, lambda s: g.item(s.parts, 0)))))
    g.ensure_eq("what is merged in is not changed", g.map(g.to_list(g.method(b.namespaces, "values")), name), g.map(ys, name))
    both = g.filter(ys, lambda y: g.has_key(xs, y.name.id))
    g.ensure_eq("schemas of the same name are merged, once", g.to_list(log), g.map(both, lambda y: (
        y.name.id, g.item(g.at_key(xs, y.name.id).parts, 0), y.name.id, g.item(y.parts, 0))))
    if not g.symbolic:
        unshared(g, "later changes do not show through", [s.parts for s in merged if s.name.id not in [x.name.id for x in xs]], [y.parts for y in ys])
    g.cover("merged")


# ---------------------------------------------------------------------- order of schemas
def typed(g, p):
    "A data type that may refer to a declared type, directly or as the type of elements of an array."
    if g.symbolic:
        t = sql_type(g, p, [dt.SqlIntegerType, dt.SqlUserDefinedType, dt.SqlArrayType])
        t.attrs["ref"] = g.new(QualifiedId, g.opt(f"{p}.ref.ns", g.name_text(f"{p}.ref.ns")), g.name_text(f"{p}.ref.id"))
        el = sql_type(g, f"{p}.element", [dt.SqlIntegerType, dt.SqlUserDefinedType])
        el.attrs["ref"] = g.new(QualifiedId, g.opt(f"{p}.el.ns", g.name_text(f"{p}.el.ns")), g.name_text(f"{p}.el.id"))
        t.attrs["element_type"] = el
        return t
    kind = g.choice("type", ["integer", "declared", "array", "array of integers"])
    ref = dt.SqlUserDefinedType(qualified(g, p))
    return {"integer": dt.SqlIntegerType(4), "declared": ref, "array": dt.SqlArrayType(ref), "array of integers": dt.SqlArrayType(dt.SqlIntegerType(4))}[kind]


def refers(g, t):
    "Whether a type refers to a declared type, by cases."
    def ref(x):
        return x.attrs["ref"] if g.symbolic else x.ref
    def element(x):
        return x.attrs["element_type"] if g.symbolic else x.element_type
    direct = g.isinstance(t, dt.SqlUserDefinedType)
    array = g.isinstance(t, dt.SqlArrayType)
    if not g.symbolic:
        return [ref(t)] if direct else [ref(element(t))] if array and isinstance(element(t), dt.SqlUserDefinedType) else []
    return [(direct, ref(t)), (g.And(array, g.isinstance(element(t), dt.SqlUserDefinedType)), ref(element(t)))]


def referenced_types(g, cls):
    make = lambda p: (g.new(ot.Column, g.new(LocalId, g.name_text(f"{p}.name")), typed(g, f"{p}.type"), True) if cls is ot.Table
                      else g.new(ot.StructMember, g.new(LocalId, g.name_text(f"{p}.name")), typed(g, f"{p}.type")))
    xs = g.seq("c", make, key_of)
    o = g.obj(cls, **{"columns" if cls is ot.Table else "members": g.new(ObjectDict, xs)})
    r = g.method(o, "get_referenced_types")
    if g.symbolic:
        g.ensure_eq("the types that the data types refer to", r, g.as_set(g.cases(xs, lambda x: refers(g, x.data_type))))
    else:
        g.ensure("the types that the data types refer to", r == {y for x in xs for y in refers(g, x.data_type)}, r)
    g.cover("types")


for _c, _n in ((ot.Table, "Table"), (ot.StructType, "StructType")):
    contract("P09", f"referenced_types_{_n}", [O + f"{_n}.get_referenced_types"], covers=("types",))(lambda g, c=_c: referenced_types(g, c))


def reference(g, p):
    return g.new(ot.ConstraintReference, qualified(g, f"{p}.table", ("qualified",)), (g.new(LocalId, g.name_text(f"{p}.refcol")),))


def constraint(g, p):
    "A unique, check, reference or choice of references."
    if not g.symbolic:
        k = g.choice("kind", ["unique", "check", "foreign", "discriminated"])
        n, col = LocalId(g.name_text(p)), LocalId(g.name_text("col"))
        return {"unique": lambda: ot.UniqueConstraint(n, (col,)), "check": lambda: ot.CheckConstraint(n, "x > 0"),
                "foreign": lambda: ot.ForeignConstraint(n, (col,), reference(g, "r")),
                "discriminated": lambda: ot.DiscriminatedConstraint(n, (col,), [reference(g, "r"), reference(g, "s")])}[k]()
    import z3
    from contracts.common import exactly_one
    from pyvc.values import Obj, Opaque

    o = Opaque(z3.Const(p, Obj), ot.Constraint)
    kinds = [ot.UniqueConstraint, ot.CheckConstraint, ot.ForeignConstraint, ot.DiscriminatedConstraint]
    o.attrs["$cands"] = kinds
    exactly_one(g.e, [g.e.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e) for k in kinds])
    o.attrs["name"] = g.new(LocalId, g.name_text(f"{p}.name"))
    o.attrs["reference"] = reference(g, f"{p}.ref")
    o.attrs["references"] = g.seq(f"{p}.refs", lambda q: reference(g, q))
    return o


@contract("P09", "referenced_tables", [O + "Table.get_referenced_tables"], covers=("tables",))
def referenced_tables(g):
    cons = g.seq("k", lambda p: constraint(g, p), ddl.ckey)
    t = g.obj(ot.Table, constraints=g.new(ObjectDict, cons))
    r = g.method(t, "get_referenced_tables")
    if g.symbolic:
        tables = g.cases(cons, lambda k: [(g.isinstance(k, ot.ForeignConstraint), g.list_of(k.attrs["reference"].table)),
                                          (g.isinstance(k, ot.DiscriminatedConstraint), g.map(k.attrs["references"], lambda x: x.table))])
        g.ensure_eq("the tables that constraints refer to", r, g.as_set(g.flat(tables)))
    else:
        want = set()
        for k in cons:
            if isinstance(k, ot.ForeignConstraint):
                want.add(k.reference.table)
            elif isinstance(k, ot.DiscriminatedConstraint):
                want |= {x.table for x in k.references}
        g.ensure("the tables that constraints refer to", r == want, r)
    g.cover("tables")


class Referring:
    "A type or table that refers to others."

    def __init__(self, name, types, tables):
        self.name = name
        self.types = types
        self.tables = tables

    def get_referenced_types(self):
        return set(self.types)

    def get_referenced_tables(self):
        return set(self.tables)


@contract("P09", "referenced_namespaces", [O + "Namespace.get_referenced_namespaces"], covers=("schemas",))
def referenced_namespaces(g):
    ids = lambda p: g.seq(p, lambda q: qualified(g, q, ("qualified",)))
    make = lambda p: g.new(Referring, g.new(LocalId, g.name_text(f"{p}.name")), ids(f"{p}.t"), ids(f"{p}.r"))
    structs, tables = g.seq("s", make, key_of), g.seq("t", make, key_of)
    ns = g.obj(ot.Namespace, name=g.new(LocalId, "ns"), enums=g.new(ObjectDict, g.list_of()), structs=g.new(ObjectDict, structs),
               tables=g.new(ObjectDict, tables))
    r = g.method(ns, "get_referenced_namespaces")
    refs = g.list_of(*g.items(g.flat(g.map(structs, lambda s: s.types))), *g.items(g.flat(g.map(tables, lambda t: t.types))),
                     *g.items(g.flat(g.map(tables, lambda t: t.tables))))
    named = g.filter(refs, lambda q: g.Not(g.is_none(q.namespace)))
    want = g.map(named, lambda q: g.new(LocalId, q.namespace.val if g.symbolic else q.namespace))
    g.ensure_eq("the schemas of what is referred to", r, g.as_set(want))
    g.cover("schemas")


class Place:
    "A schema and the schemas it refers to."

    def __init__(self, name, refs):
        self.name = name
        self.refs = refs

    def get_referenced_namespaces(self):
        return set(self.refs)


@contract("P09", "sort", [O + "Catalog.sort", "pysqlsync/formation/object_dict.py::ObjectDict.reorder"], covers=("sorted",))
def sort(g):
    """
    Assumed contract of topological_sort: given every node with the nodes it refers to, all of them nodes, the nodes
    are returned once each, a node after those it refers to.
    """
    import strong_typing.topological as st

    def make(p):
        name = g.new(LocalId, g.name_text(f"{p}.name"))
        return g.new(Place, name, g.seq(f"{p}.refs", lambda q: g.new(LocalId, g.name_text(f"{q}.id"))))

    if not g.symbolic:
        # references among the schemas and to others, without a cycle
        names = list(dict.fromkeys(g.name_text("schema") for _ in range(g.rng.randint(0, 5))))
        places = [Place(LocalId(n), [LocalId(m) for m in [*names[:i + 1], "elsewhere"] if g.bool("refers")]) for i, n in enumerate(names)]
        g.rng.shuffle(places)
        c = ot.Catalog(places)
        c.sort()
        order = list(c.namespaces.values())
        g.ensure("the same schemas", sorted(map(id, order)) == sorted(map(id, places)), order)
        at = {s.name: i for i, s in enumerate(order)}
        g.ensure("each follows those it refers to", all(at[r] <= at[s.name] for s in order for r in s.refs if r in at), [s.name for s in order])
        g.cover("sorted")
        return
    xs = g.seq("x", make, key_of)
    e = g.e
    b = e.permuted(xs.items[0].base, "order")
    order = e.new_seq(e.seq_of(b).items, "list")
    graphs = []

    def topological(e, graph):
        graphs.append(graph)
        return e.new_seq(e.map_items(order.items, lambda x: x.name), "list")

    g.override(st.topological_sort, topological)
    c = g.new(ot.Catalog, xs)
    r = g.outcome(c, "sort")
    g.ensure("not refused", not r.raised, r)
    g.ensure("sorted once", len(graphs) == 1, graphs)
    for graph in graphs:
        pairs = g.to_list(g.method(graph, "items"))
        g.ensure_eq("all the schemas are sorted", g.map(pairs, lambda p: g.item(p, 0)), g.map(xs, lambda x: x.name))
        among = lambda x: g.as_set(g.filter(x.refs, lambda n: g.has_key(xs, n.id)))
        for what, sets in (("by the schemas they refer to", g.map(pairs, lambda p: g.item(p, 1))),):
            g.ensure_eq(what, sets, g.map(xs, among))
    g.ensure_eq("the schemas are in that order", g.to_list(g.method(c.namespaces, "keys")), g.map(order, lambda x: x.name.id))
    g.cover("sorted")
