"""P10 Row statements bind each supplied column to one placeholder in order."""
from __future__ import annotations

import importlib

from pysqlsync import base as pb
from pysqlsync.formation import object_types as ot
from pysqlsync.model.id_types import LocalId

from contracts import ddl
from contracts.common import column, key_of, qname_of, qualified, use_quoting_contracts
from pyvc.contract import contract
from spec import sql

G = "pysqlsync/base.py::BaseGenerator."
T = "pysqlsync/formation/object_types.py::Table."
STYLE = {"postgresql": "$", "redshift": ":", "delta": ":", "snowflake": ":", "oracle": ":", "mysql": None, "mssql": None}
COMPOSITE = ("postgresql", "mysql")


def generator_class(d):
    m = importlib.import_module(f"pysqlsync.dialect.{d}.generator")
    return next(v for v in vars(m).values() if isinstance(v, type) and issubclass(v, pb.BaseGenerator)
                and v.__module__ == m.__name__)


def unique_pred(g, name):
    import z3
    from pyvc.values import SBool, Text

    return SBool(g.e.fn("unique column", Text, z3.BoolSort())(g.e.term(name)))


def the_table(g, composite):
    "A table of any columns, a primary key and unique columns."
    qid = qualified(g, "table")
    cols = g.seq("c", lambda p: column(g, p, description=False), key_of)
    if composite == "any":
        n = g.choice("columns in the key", [0, 1, 2])
        pk = tuple(g.new(LocalId, g.name_text(f"pk{i}")) for i in range(n))
        if n == 2:
            pk = g.list_of(*pk, *g.items(g.seq("pk", lambda q: g.new(LocalId, g.name_text(f"{q}.id")), kind="tuple")), kind="tuple")
    elif composite:
        pk = ddl.ids(g, "pk")
    else:
        pk = (g.new(LocalId, g.name_text("pk")),)
    if g.symbolic:
        # contract of is_unique_column (own contract below): an undetermined set of columns
        g.override(ot.Table.is_unique_column, lambda e, self, c: unique_pred(g, c.name.id))
        cons = g.list_of()
    else:
        cons = g.seq("k", lambda p: ddl.unit_constraint(g, p, g.name_text(p)), ddl.ckey)
        names = [c.name for c in cols]
        if names and g.bool("keyed"):
            # the key is usually one of the columns
            if pk:
                pk = tuple(dict.fromkeys((g.choice("pk column", names),) + (pk[1:] if composite else ())))
            cons = list(cons)
            u = g.choice("unique column", names)
            if g.bool("unique"):
                cons.append(ot.UniqueConstraint(LocalId("uq_extra"), (u,)))
    t = g.new(ot.Table, qid, cols, primary_key=pk, constraints=cons)
    return qid, cols, pk, t


def is_unique(g, t, c):
    if g.symbolic:
        return unique_pred(g, c.name.id)
    return any(isinstance(k, ot.UniqueConstraint) and k.unique_columns == (c.name,) for k in t.constraints.values())


def in_key(g, pk, c):
    return g.contains(pk, c.name)


def the_order(g, cols):
    "No order, or names of columns (each once), or of columns that the table does not have."
    if not g.flag("ordered"):
        return None, cols
    if g.symbolic:
        order = g.seq("order", lambda p: g.name_text(p), key=lambda v: v, kind="tuple")
    else:
        names = [c.name.id for c in cols]
        rng = g.rng
        order = tuple(rng.sample(names, rng.randint(0, len(names)))) if names else ()
        if g.bool("unknown"):
            order = order + (g.name_text("order.x"),)
            g.assume(len(set(order)) == len(order))
        g.note("order", order)
    return order, None


def params(g, d, names):
    style = STYLE[d]
    if style is None:
        return g.map(names, lambda n: ("param", None))
    return g.map(g.enumerate(names, 1), lambda x: ("param", g.str(x[0])))


def statement(g, d, kind):
    use_quoting_contracts(g)
    qid, cols, pk, t = the_table(g, d in COMPOSITE)
    gen = g.obj(generator_class(d))
    order, wanted = the_order(g, cols)
    r = g.outcome(gen, f"get_table_{kind}_stmt", t, order)
    if order is not None:
        missing = g.filter(order, lambda n: g.Not(g.has_key(cols, n)))
        bad = g.gt(g.length(missing), 0)
        g.ensure("refused exactly if a column is not in the table", g.eq(r.raised, bad), r)
        if r.raised:
            g.ensure("an unknown column is rejected with a value error", isinstance(r.value, ValueError), r)
            g.cover("unknown column")
            return
        wanted = g.map(order, lambda n: g.at_key(cols, n))
    else:
        g.ensure("not refused", not r.raised, r)
        if r.raised:
            return
    ident = lambda c: c.identity
    plain = g.filter(wanted, lambda c: g.Not(ident(c)))
    key = lambda c: in_key(g, pk, c)
    names = lambda xs: g.map(xs, lambda c: c.name.id)
    if kind != "upsert":
        wanted = plain
    if d not in COMPOSITE and kind in ("merge", "upsert"):
        lookup = lambda c: g.Or(key(c), is_unique(g, t, c))
        matching = g.filter(wanted, lookup)
        if g.symbolic:
            # rows can be matched only by columns that are supplied
            g.assume(g.gt(g.length(matching), 0))
        else:
            g.assume(len(matching) > 0)
    ops = sql.script(g.force(r.value), d)
    if len(ops) != 1:
        g.fail("one statement", ops)
        return
    op = ops[0]
    g.ensure_eq("the table", op[1], qname_of(g, qid))
    if op[0] == "insert":
        g.ensure_eq("the columns requested, in order", g.list_of(*op[2]), names(wanted))
        if len(op[3]) != 1:
            g.fail("one row", op)
            return
        row = op[3][0]
        got = sql.smap(list(row), lambda v: [sql.placeholder(v)])
        g.ensure_eq("one placeholder for each column, in order", g.list_of(*got), params(g, d, wanted))
        clause = sql.conflict(list(op[4]))
        if kind == "insert":
            g.ensure("nothing is said about rows that are there already", clause is None, clause)
            g.cover("insert")
            return
        if kind == "merge":
            if clause is None:
                g.fail("rows that are there already are left as they are", clause)
            elif clause[0] == "update":
                g.ensure("rows that are there already are left as they are", harmless(g, clause[2]), clause)
                g.ensure("there is an assignment", clause[2] != [], clause)
            else:
                g.ensure("rows that are there already are left as they are", clause == ("nothing", None), clause)
            g.cover("merge")
            return
        if clause is None:
            g.fail("rows that are there already are updated", clause)
            return
        value = g.filter(wanted, lambda c: g.Not(g.Or(key(c), ident(c))))
        some = g.truth(g.gt(g.length(value), 0))
        if clause[1] is not None or d == "postgresql":
            g.ensure_eq("rows are matched on the key", g.list_of(*(clause[1] or ())), g.map(pk, lambda n: n.id))
        if some:
            if clause[0] != "update":
                g.fail("every supplied value is written", clause)
                return
            g.ensure_eq("every supplied value is written, nothing else", g.list_of(*clause[2]),
                        g.map(value, lambda c: (c.name.id, "new", c.name.id)))
            g.cover("upsert")
        elif clause[0] == "update":
            nothing_written(g, "nothing is written", clause[2], pk)
        return
    if op[0] != "merge" or kind == "insert":
        g.fail("the kind of statement", op)
        return
    _, q, values, source, on, matched, unmatched = op
    g.ensure_eq("the columns requested, in order", g.list_of(*source), names(wanted))
    g.ensure_eq("one placeholder for each column, in order", g.list_of(*values), params(g, d, wanted))
    if on is None:
        g.fail("rows are matched", op)
        return
    g.ensure_eq("rows are matched on the columns that identify them", g.list_of(*on),
                g.map(matching, lambda c: (c.name.id, c.name.id)))
    if kind == "merge":
        g.ensure("rows that are there already are left as they are", matched is None, op)
    else:
        value = g.filter(wanted, lambda c: g.Not(g.Or(lookup(c), ident(c))))
        g.ensure_eq("every supplied value is written, nothing else", g.list_of(*(matched or [])),
                    g.map(value, lambda c: (c.name.id, "new", c.name.id)))
        if matched is not None:
            g.ensure("an update assigns something", g.gt(g.length(value), 0), op)
    new = g.filter(wanted, lambda c: g.Not(ident(c)))
    if unmatched is None:
        g.ensure("new rows are inserted", g.Not(g.gt(g.length(new), 0)), op)
    else:
        g.ensure("an insertion has columns", g.gt(g.length(new), 0), op)
        g.ensure_eq("new rows get every supplied value", g.list_of(*unmatched[0]), names(new))
        g.ensure_eq("each from its own column", g.list_of(*unmatched[1]), names(new))
    g.cover(kind)


def harmless(g, assigned):
    return g.And(*[g.And(x[1] == "old", g.eq(x[0], x[2])) for x in plain_items(g, assigned)])


def nothing_written(g, what, assigned, pk):
    "Columns of the key get the values by which the row was found, or any column keeps its value."
    if any(x[1] == "new" for x in plain_items(g, assigned)):
        g.ensure_eq(what, g.list_of(*assigned), g.map(pk, lambda n: (n.id, "new", n.id)))
    else:
        g.ensure(what, harmless(g, assigned), assigned)


def plain_items(g, items):
    for i in items:
        if hasattr(i, "cases"):
            for c, xs in i.cases:
                yield from xs
        else:
            yield i


def delete_contract(g, d):
    use_quoting_contracts(g)
    qid, cols, pk, t = the_table(g, "any")
    gen = g.obj(generator_class(d))
    r = g.outcome(gen, "get_table_delete_stmt", t)
    single = len(g.items(pk)) == 1
    g.ensure("refused exactly if the key is not one column",
             g.eq(r.raised, g.Not(g.has_key(cols, g.items(pk)[0].id)) if single else True), r)
    if r.raised:
        g.cover("composite key")
        return
    op = sql.statement(sql.lex(g.force(r.value)), d)
    if op[0] != "delete":
        g.fail("rows are deleted", op)
        return
    g.ensure_eq("the table", op[1], qname_of(g, qid))
    g.ensure_eq("rows are matched on the key", sql.column_of(op[2]), g.items(pk)[0].id)
    got = sql.placeholder(op[3])
    g.ensure_eq("one placeholder", got, ("param", None if STYLE[d] is None else "1"))
    g.cover("delete")


for _d in STYLE:
    cls = generator_class(_d)
    for _k in ("insert", "merge", "upsert"):
        where = f"pysqlsync/dialect/{_d}/generator.py::{cls.__name__}.get_table_{_k}_stmt" if f"get_table_{_k}_stmt" in vars(cls) \
            else G + f"get_table_{_k}_stmt"
        fs = [where, T + "get_columns"]
        if _k == "upsert" and _d in COMPOSITE:
            fs.append(T + "get_value_columns")
        if _k != "insert" and _d not in COMPOSITE:
            fs += [G + "_get_merge_preamble", T + "is_lookup_column", T + "is_primary_column"]
        contract("P10", f"{_d}_{_k}", fs, covers=("unknown column", _k))(lambda g, d=_d, k=_k: statement(g, d, k))
    contract("P10", f"{_d}_delete", [G + "get_table_delete_stmt", T + "get_primary_column"], covers=("delete",))(
        lambda g, d=_d: delete_contract(g, d))


class Constraints:
    "The constraints of a table: their names do not matter here."

    def __init__(self, items):
        self.items = items

    def values(self):
        return self.items


def any_constraint(g, p, composite):
    "A constraint of unknown kind, on one column or on several."
    c = ddl.abstract_constraint(g, p)
    if composite:
        cols = g.list_of(g.new(LocalId, g.name_text(f"{p}.col1")), g.new(LocalId, g.name_text(f"{p}.col2")),
                         *g.items(g.seq(f"{p}.more", lambda q: g.new(LocalId, g.name_text(f"{q}.id")), kind="tuple")), kind="tuple")
        if g.symbolic:
            c.attrs["unique_columns"] = c.attrs["foreign_columns"] = cols
        else:
            for a in ("unique_columns", "foreign_columns"):
                if hasattr(c, a):
                    setattr(c, a, cols)
    return c


def single_contract(g, method, cls, attr):
    "Whether a constraint of this kind is on the column alone."
    col = column(g, "c", description=False)
    cons = g.list_of(*g.items(g.seq("a", lambda p: any_constraint(g, p, False))),
                     *g.items(g.seq("b", lambda p: any_constraint(g, p, True))),
                     *g.items(g.seq("d", lambda p: any_constraint(g, p, False))))
    t = g.obj(ot.Table, constraints=g.obj(Constraints, items=cons))

    def suits(k):
        if not g.symbolic:
            return isinstance(k, cls) and tuple(getattr(k, attr)) == (col.name,)
        cols = k.attrs[attr]
        if len(g.items(cols)) != 1:
            return False
        return g.And(g.isinstance(k, cls), g.eq(cols[0], col.name))

    some = g.gt(g.length(g.filter(cons, suits)), 0)
    if method == "get_constraint":
        r = g.outcome(t, method, col.name)
        g.ensure("refused exactly if there is none", g.eq(r.raised, g.Not(some)), r)
        if r.raised:
            g.ensure("refused with a key error", isinstance(r.value, KeyError), r)
            g.cover("none")
        else:
            found = g.filter(cons, suits)
            g.cover("found")
            if g.symbolic:
                g.ensure("the reference of such a constraint", g.gt(g.length(g.filter(found, lambda k: g.eq(g.attr(k, "reference"), r.value))), 0))
            else:
                g.ensure("the reference of such a constraint", any(k.reference == r.value for k in found), r)
        return
    r = g.method(t, method, col)
    g.ensure("exactly if there is such a constraint", g.eq(r, some), r)
    g.cover("found" if g.truth(r) else "none")


contract("P10", "is_unique_column", [T + "is_unique_column"], covers=("found", "none"))(
    lambda g: single_contract(g, "is_unique_column", ot.UniqueConstraint, "unique_columns"))
