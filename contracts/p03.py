"""P03: collections of named objects are insertion-ordered maps."""
import operator

from pysqlsync.formation import object_types as ot
from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.model.id_types import LocalId, QualifiedId

from pyvc.contract import contract

from .common import key_of, sql_type

M = "pysqlsync.formation.object_dict.ObjectDict."


def member(g, p, name=None):
    return g.new(ot.StructMember, g.new(LocalId, name if name is not None else g.name_text(f"{p}.name")),
                 sql_type(g, f"{p}.type"), g.opt(f"{p}.description", g.text(f"{p}.description")))


def schema(g, p, name=None):
    "A member that is false in a Boolean context if there is nothing in it."
    return g.new(ot.Namespace, g.new(LocalId, name if name is not None else g.name_text(f"{p}.name")), enums=g.list_of(),
                 structs=g.list_of(), tables=g.seq(f"{p}.tables", lambda q: g.new(
                     ot.Table, g.new(QualifiedId, None, g.name_text(f"{q}.id")), g.list_of(), primary_key=()), key_of2))


def key_of2(x):
    return x.name.id


def members(g, name, member=member):
    return g.seq(name, lambda p: member(g, p), key_of)


def local(g):
    return lambda x: x.name.id


def same(g, what, d, xs):
    "The collection lists exactly xs, in order, through every way of looking at it."
    g.ensure_eq(f"{what}: members in order", g.to_list(g.method(d, "values")), xs)
    g.ensure_eq(f"{what}: names in order", g.to_list(g.method(d, "keys")), g.map(xs, lambda x: x.name.id))
    g.ensure_eq(f"{what}: iteration yields the names in order", g.to_list(d), g.map(xs, lambda x: x.name.id))
    g.ensure_eq(f"{what}: entries in order", g.to_list(g.method(d, "items")), g.map(xs, lambda x: (x.name.id, x)))
    g.ensure_eq(f"{what}: size", g.length(d), g.length(xs))


@contract("P03", functions=[M + "__init__", M + "values", M + "keys", M + "items", M + "__iter__", M + "__len__"])
def construct(g):
    xs = members(g, "xs")
    same(g, "built", g.new(ObjectDict, xs), xs)


@contract("P03", functions=[M + "get", M + "__getitem__", M + "__contains__", M + "add", M + "remove"],
          covers=["present", "absent"])
def lookup_add_remove(g, member=member):
    n = g.name_text("n")
    present = g.flag("present")
    u = member(g, "u", n) if present else None
    xs = g.around("xs", lambda p: member(g, p), key_of, n, u)
    d = g.new(ObjectDict, xs)
    g.cover("present" if present else "absent")
    default = g.opaque("default", object)
    g.ensure_eq("membership", g.contains(d, n), present)
    got = g.outcome(d, "__getitem__", n)
    if present:
        g.ensure_eq("get", g.method(d, "get", n), u)
        g.ensure_eq("get with a default", g.method(d, "get", n, default), u)
        g.ensure("indexing finds the member", not got.raised, got)
        g.ensure_eq("indexing", got.value, u)
    else:
        g.ensure_eq("get of an absent name", g.method(d, "get", n), None)
        g.ensure("get with a default of an absent name", g.method(d, "get", n, default) is default)
        g.ensure("indexing an absent name", got.raised and isinstance(got.value, KeyError), got)
    same(g, "after looking", d, xs)
    # adding
    a = g.new(ObjectDict, xs)
    new = u if present and g.truth(g.flag("again")) else member(g, "new", n)
    r = g.outcome(a, "add", new)
    if present:
        g.ensure("adding a present name is rejected", r.raised and isinstance(r.value, ValueError), r)
        same(g, "after a rejected addition", a, xs)
    else:
        g.ensure("adding an absent name is accepted", not r.raised, r)
        same(g, "after an addition", a, g.list_of(*g.items(xs), new))
    # removing
    b = g.new(ObjectDict, xs)
    r = g.outcome(b, "remove", n)
    if present:
        g.ensure("removing a present name is accepted", not r.raised, r)
        same(g, "after a removal", b, g.list_of(*[x for x in g.items(xs) if x is not u]))
    else:
        g.ensure("removing an absent name is rejected", r.raised and isinstance(r.value, KeyError), r)
        same(g, "after a rejected removal", b, xs)
    # the original is not affected by either
    same(g, "the original", d, xs)


@contract("P03", functions=[M + "difference", M + "intersection"])
def difference_intersection(g, member=member):
    xs, ys = members(g, "xs", member), members(g, "ys", member)
    a, b = g.new(ObjectDict, xs), g.new(ObjectDict, ys)
    g.ensure_eq("difference", g.to_list(g.method(a, "difference", b)),
                g.filter(xs, lambda x: g.Not(g.has_key(ys, x.name.id))))
    g.ensure_eq("intersection", g.to_list(g.method(a, "intersection", b)),
                g.filter(xs, lambda x: g.has_key(ys, x.name.id), lambda x: (x, g.at_key(ys, x.name.id))))
    same(g, "operands unchanged (left)", a, xs)
    same(g, "operands unchanged (right)", b, ys)


@contract("P03", functions=[M + "__eq__"], covers=["focus", "self"])
def equality(g):
    if g.flag("self"):
        g.cover("self")
        xs = members(g, "xs")
        a, b = g.new(ObjectDict, xs), g.new(ObjectDict, xs)
        g.ensure("collections of the same members are equal", g.eq(a, b))
        g.ensure("a collection is not equal to something else", g.Not(g.eq(a, None)))
        if not g.symbolic:
            c = ObjectDict(g.rng.sample(xs, len(xs)))
            g.ensure("whatever the order of the members", a == c and not a != c, (a, c))
        return
    g.cover("focus")
    # an arbitrary name n: present or absent in either
    n = g.name_text("n")
    pa, pb = g.flag("in a"), g.flag("in b")
    u = member(g, "u", n) if pa else None
    v = member(g, "v", n) if pb else None
    a = g.new(ObjectDict, g.around("xs", lambda p: member(g, p), key_of, n, u))
    b = g.new(ObjectDict, g.around("ys", lambda p: member(g, p), key_of, n, v))
    e = g.eq(a, b)
    if pa != pb:
        g.ensure("equal collections have the same names", g.Not(e))
    elif pa:
        g.ensure("equal collections have equal members under each name", g.Implies(e, g.eq(u, v)))


@contract("P03", functions=[M + "sort"], covers=["present", "absent"])
def sort(g):
    xs = members(g, "xs")
    d = g.new(ObjectDict, xs)
    g.method(d, "sort")
    permuted(g, d, xs)
    if not g.symbolic:
        ks = list(d.keys())
        g.ensure("names ascend after sorting", all(x < y for x, y in zip(ks, ks[1:])), ks)


def permuted(g, d, xs):
    g.ensure_eq("size is kept", g.length(d), g.length(xs))
    k = g.name_text("k")
    was = g.has_key(xs, k)
    g.ensure_eq("names are kept", g.contains(d, k), was)
    if g.truth(was):
        g.cover("present")
        g.ensure_eq("members are kept under their names", g.method(d, "get", k), g.at_key(xs, k))
    else:
        g.cover("absent")


@contract("P03", functions=[M + "reorder"], covers=["present", "absent"])
def reorder(g):
    xs = members(g, "xs")
    d = g.new(ObjectDict, xs)
    if g.symbolic:
        e = g.e
        b = e.permuted(xs.items[0].base, "order")
        order = e.new_seq(e.map_items(e.seq_of(b).items, lambda x: x.name.id), "list")
    else:
        order = [x.name.id for x in xs]
        g.rng.shuffle(order)
    g.method(d, "reorder", order)
    g.ensure_eq("names in the requested order", g.to_list(g.method(d, "keys")), order)
    permuted(g, d, xs)


contract("P03", "lookup_add_remove_schemas", [M + "get", M + "__getitem__", M + "__contains__", M + "add", M + "remove"],
         covers=["present", "absent"])(lambda g: lookup_add_remove(g, schema))
contract("P03", "difference_intersection_schemas", [M + "difference", M + "intersection"])(
    lambda g: difference_intersection(g, schema))
