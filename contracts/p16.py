"""P16 Key constraints discovered row by row are grouped without loss."""
from __future__ import annotations

import importlib
from dataclasses import dataclass

import pysqlsync.formation.constraints as fc
import pysqlsync.dialect.mssql.discovery as ms
import pysqlsync.dialect.mysql.discovery as my
import pysqlsync.dialect.oracle.discovery as oc
import pysqlsync.dialect.postgresql.discovery as ps
import pysqlsync.formation.discovery as fd
from pysqlsync.formation import object_types as ot
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from contracts.p18 import Connection, own, record
from pyvc.contract import contract

F = "pysqlsync/formation/constraints.py::"


def state(entries):
    "The table of an arbitrary history, entry by entry."
    return {e.name: e.columns for e in entries}


class Entry:
    def __init__(self, name, columns):
        self.name = name
        self.columns = columns


def cols(g, p):
    return g.seq(f"{p}.c", lambda q: g.new(LocalId, g.name_text(f"{q}.id")))


def target(g, p):
    return g.new(QualifiedId, g.opt(f"{p}.ns", lambda q: g.name_text(q)), g.name_text(f"{p}.id"))


class History:
    "What a factory has been given: either rows (executed) or any state they lead to (verified)."


def entries_of(g, make, name):
    "The constraints of an arbitrary history; in half the cases, one of them has the name."
    known = g.flag("known")
    u = make("u", name) if known else None
    xs = g.around("n", lambda p: make(p, None), lambda x: x.name, name, u)
    g.cover("known" if known else "new")
    return known, u, xs


def unique_entry(g, p, name):
    return g.new(Entry, name if name is not None else g.name_text(f"{p}.name"), g.to_list(cols(g, p)))


def represents(g, f, *names):
    "The step is verified from any state; its shape is known for the present representation only."
    if set(f.__dict__) != set(names):
        g.unsupported("another representation of the constraints collected so far")


@contract("P16", "unique", [F + "UniqueFactory.__init__", F + "UniqueFactory.add", F + "UniqueFactory.fetch"], covers=("new", "known"))
def unique(g):
    """
    One constraint per name, in order of first appearance, with its columns in row order. Verified by induction over the
    rows: nothing has been collected initially; a row adds its column to the constraint of that name, or a constraint
    that comes last; what is fetched is what has been collected.
    """
    f = g.new(fc.UniqueFactory)
    if not g.symbolic:
        return unique_rows(g, f)
    represents(g, f, "name_to_columns")
    g.ensure_eq("nothing is collected initially", g.to_list(g.method(f, "fetch")), g.list_of())
    name, column = g.name_text("name"), g.new(LocalId, g.name_text("column"))
    known, u, xs = entries_of(g, lambda p, n: unique_entry(g, p, n), name)
    want = g.map(xs, lambda x: (g.new(LocalId, x.name), g.to_tuple(g.list_of(*g.items(x.columns), column) if x is u else x.columns)))
    if not known:
        want = g.list_of(*g.items(want), (g.new(LocalId, name), g.to_tuple(g.list_of(column))))
    f.__dict__["name_to_columns"] = g.call(state, xs)
    g.call(f.add, name, column)
    r = g.outcome(f, "fetch")
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    g.ensure_eq("the column of the row comes last in the constraint of its name", g.map(r.value, lambda c: (c.name, c.unique_columns)), want)


def unique_rows(g, f):
    rows = [(g.choice("name", g.idents[:3]), LocalId(g.choice("column", g.idents))) for _ in range(g.choice("rows", [0, 1, 2, 3, 5, 8]))]
    for n, c in rows:
        f.add(n, c)
    names = list(dict.fromkeys(n for n, _ in rows))
    got = f.fetch()
    g.ensure_eq("one constraint per name in order of first appearance", [x.name for x in got], [LocalId(n) for n in names])
    g.ensure_eq("the columns of each name in row order", [x.unique_columns for x in got], [tuple(c for m, c in rows if m == n) for n in names])
    g.cover("new")
    g.cover("known")


def links(entries):
    return {e.name: e.link for e in entries}


class Linked:
    def __init__(self, name, link):
        self.name = name
        self.link = link


def foreign_entry(g, p, name):
    link = g.new(fc.ConstraintLink, target(g, f"{p}.t"))
    if set(link.__dict__) != {"target_table", "column_pairs"}:
        g.unsupported("another representation of the constraints collected so far")
    link.__dict__["column_pairs"] = g.to_list(g.seq(f"{p}.p", lambda q: g.new(
        fc.ColumnPair, g.new(LocalId, g.name_text(f"{q}.source")), g.new(LocalId, g.name_text(f"{q}.target")))))
    return g.new(Linked, name if name is not None else g.name_text(f"{p}.name"), link)


@contract("P16", "foreign", [F + "ForeignFactory.__init__", F + "ForeignFactory.add", F + "ForeignFactory.fetch", F + "ConstraintLink.__init__"],
          covers=("new", "known", "rejected", "added"))
def foreign(g):
    "Likewise, each source column with its target column; all rows of a constraint have the same target table."
    f = g.new(fc.ForeignFactory)
    if not g.symbolic:
        return foreign_rows(g, f)
    represents(g, f, "target_table", "name_to_constraint")
    g.ensure_eq("nothing is collected initially", g.to_list(g.method(f, "fetch")), g.list_of())
    name, source, dest = g.name_text("name"), g.new(LocalId, g.name_text("source")), g.new(LocalId, g.name_text("dest"))
    table = target(g, "table")
    known, u, xs = entries_of(g, lambda p, n: foreign_entry(g, p, n), name)

    def columns_of(x, what, last):
        cs = g.map(x.link.column_pairs, lambda p: getattr(p, what))
        return g.to_tuple(g.list_of(*g.items(cs), last) if x is u else cs)

    want = g.map(xs, lambda x: (g.new(LocalId, x.name), columns_of(x, "source", source), x.link.target_table, columns_of(x, "target", dest)))
    if not known:
        want = g.list_of(*g.items(want), (g.new(LocalId, name), g.to_tuple(g.list_of(source)), table, g.to_tuple(g.list_of(dest))))
    f.__dict__["name_to_constraint"] = g.call(links, xs)
    same = g.truth(g.eq(u.link.target_table, table)) if known else True
    r = g.outcome(f, "add", name, source, table, dest)
    if not same:
        g.ensure("rows with different target tables are rejected", r.raised and isinstance(r.value, ValueError), r)
        g.cover("rejected")
        return
    g.ensure("not refused", not r.raised, r)
    r = g.outcome(f, "fetch")
    g.ensure("fetching is not refused", not r.raised, r)
    if r.raised:
        return
    g.ensure_eq("the columns of the row come last in the constraint of its name",
                g.map(r.value, lambda c: (c.name, c.foreign_columns, c.reference.table, c.reference.columns)), want)
    g.cover("added")


def foreign_rows(g, f):
    tables = [QualifiedId("a", "t"), QualifiedId("b", "t"), QualifiedId(None, "t")]
    of = {n: g.choice(f"table of {n}", tables) for n in g.idents[:3]}
    rows = [(g.choice("name", g.idents[:3]), LocalId(g.choice("source", g.idents)), LocalId(g.choice("target", g.idents)))
            for _ in range(g.choice("rows", [0, 1, 2, 3, 5, 8]))]
    seen = {}
    for n, s, t in rows:
        table = g.choice("table", tables) if g.rng.random() < 0.1 else of[n]
        r = g.outcome(f, "add", n, s, table, t)
        if seen.setdefault(n, table) != table:
            g.ensure("rows with different target tables are rejected", r.raised and isinstance(r.value, ValueError), r)
            g.cover("rejected")
            return
        g.ensure("not refused", not r.raised, r)
    got = f.fetch()
    g.ensure_eq("one constraint per name in order of first appearance", [x.name for x in got], [LocalId(n) for n in seen])
    g.ensure_eq("the target tables", [x.reference.table for x in got], list(seen.values()))
    g.ensure_eq("columns as in a declared constraint", {type(y) for x in got for y in (x.foreign_columns, x.reference.columns)}, {tuple} if got else set())
    g.ensure_eq("the columns of each name in row order", [list(zip(x.foreign_columns, x.reference.columns)) for x in got],
                [[(s, t) for m, s, t in rows if m == n] for n in seen])
    for k in ("added", "new", "known"):
        g.cover(k)


# ---------------------------------------------------------------------- from the rows of the catalog to the constraints
class Rows:
    "Stands for a factory, by its contract: what it is given determines what is fetched."

    def __init__(self):
        self.rows = []

    def fetch(self):
        return self.rows


class UniqueRows(Rows):
    def add(self, name, column):
        self.rows.append((name, column))


class ForeignRows(Rows):
    def add(self, name, column, table, target):
        self.rows.append((name, column, table, target))


class AnyTable:
    "The arguments that a table is made of."

    def __init__(self, name, columns, primary_key, constraints=None, description=None):
        self.name = name
        self.columns = columns
        self.primary_key = primary_key
        self.constraints = constraints
        self.description = description


class Tables:
    "Stands for the factory of tables."

    table_class = AnyTable


def tables(g, ex):
    if g.symbolic:
        ex.__dict__["factory"] = g.new(Tables)
    return ex


def factories(g, module):
    if g.symbolic and not hasattr(module, "UniqueFactory"):
        g.stub(module, "ForeignFactory", ForeignRows)
    elif g.symbolic:
        g.stub(module, "UniqueFactory", UniqueRows)
        g.stub(module, "ForeignFactory", ForeignRows)


def catalog_rows(g, make):
    "Any rows; natively, of a few names, as a catalog returns them."
    if g.symbolic:
        return g.to_list(g.seq("rows", lambda p: make(g, p, lambda n: g.name_text(f"{p}.{n}"))))
    pick = {}

    def text(n):
        return g.choice(n, g.idents[:3] if n == "name" else g.idents)
    return [make(g, "r", text) for _ in range(g.choice("rows", [0, 1, 2, 3, 5, 8]))]


def grouped(g, kind, rows, got):
    "The constraints are those of the factory that has been given the rows."
    if g.symbolic:
        g.ensure_eq("every row is added, in order", got, rows)
        return
    names = list(dict.fromkeys(r[0] for r in rows))
    g.ensure_eq("one constraint per name in order of first appearance", [c.name for c in got], [LocalId(n) for n in names])
    for c in got:
        mine = [r for r in rows if LocalId(r[0]) == c.name]
        if kind == "unique":
            g.ensure_eq("the columns in row order", list(c.unique_columns), [r[1] for r in mine])
        else:
            g.ensure_eq("the columns and their targets in row order", list(zip(c.foreign_columns, c.reference.columns)), [(r[1], r[3]) for r in mine])
            g.ensure_eq("the target table", c.reference.table, mine[0][2])


@contract("P16", "rows_unique", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_unique_constraints"], covers=("read",))
def rows_unique(g):
    factories(g, fd)
    rows = catalog_rows(g, lambda g, p, text: record(g, fd.AnsiUniqueMeta, constraint_name=text("name"), table_schema="s", table_name="t", column_name=text("column")))
    conn = g.new(Connection, {fd.AnsiUniqueMeta: rows})
    got = g.method(own("mssql", "MSSQLExplorer")(g, conn), "get_unique_constraints", g.new(QualifiedId, "s", "t"))
    grouped(g, "unique", g.map(rows, lambda r: (r.constraint_name, g.new(LocalId, r.column_name))), got)
    g.cover("read")


@contract("P16", "rows_foreign", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_referential_constraints"], covers=("read",))
def rows_foreign(g):
    factories(g, fd)

    def row(g, p, text):
        n = text("name")
        return record(g, fd.AnsiConstraintMeta, fk_constraint_name=n, fk_column_name=text("source"), uq_constraint_name=text("key"),
                      uq_table_schema="s" if not g.symbolic else text("schema"), uq_table_name=n if not g.symbolic else text("table"), uq_column_name=text("target"))

    rows = catalog_rows(g, row)
    conn = g.new(Connection, {fd.AnsiConstraintMeta: rows})
    got = g.method(own("mssql", "MSSQLExplorer")(g, conn), "get_referential_constraints", g.new(QualifiedId, "s", "t"))
    grouped(g, "foreign", g.map(rows, lambda r: (r.fk_constraint_name, g.new(LocalId, r.fk_column_name),
                                                 g.new(QualifiedId, r.uq_table_schema, r.uq_table_name), g.new(LocalId, r.uq_column_name))), got)
    g.cover("read")


@contract("P16", "rows_foreign_mysql", ["pysqlsync/dialect/mysql/discovery.py::MySQLExplorer.get_referential_constraints"], covers=("read",))
def rows_foreign_mysql(g):
    factories(g, my)
    cls = my.AnsiConstraintMeta

    def row(g, p, text):
        n = text("name")
        return record(g, cls, fk_constraint_name=n, fk_column_name=text("source"), uq_constraint_name=text("key"),
                      uq_table_name=composite(g, p, n), uq_column_name=text("target"))

    rows = catalog_rows(g, row)
    conn = g.new(Connection, {cls: rows})
    ex = own("mysql", "MySQLExplorer")(g, conn)
    split_contract(g, ex)
    got = g.method(ex, "get_referential_constraints", g.new(PrefixedId, None, "t"))
    grouped(g, "foreign", g.map(rows, lambda r: (r.fk_constraint_name, g.new(LocalId, r.fk_column_name), split(g, r.uq_table_name), g.new(LocalId, r.uq_column_name))), got)
    g.cover("read")


@dataclass(frozen=True)
class Split:
    "The table that a composite name stands for."

    name: str


def composite(g, p, name):
    return g.name_text(f"{p}.table") if g.symbolic else ("s__" if len(name) % 2 else "") + name.replace("__", "_")


def split_contract(g, ex):
    "What a composite name is split into is verified with identifiers: see split_id."
    if g.symbolic:
        ex.__dict__["split_composite_id"] = Split


def split(g, name):
    if g.symbolic:
        return g.new(Split, name)
    scope, sep, table = name.partition("__")
    return PrefixedId(scope, table) if sep else PrefixedId(None, name)


@contract("P16", "rows_primary", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_table_primary_key"], covers=("read",))
def rows_primary(g):
    rows = catalog_rows(g, lambda g, p, text: text("column"))
    conn = g.new(Connection, {str: rows})
    got = g.method(own("mssql", "MSSQLExplorer")(g, conn), "get_table_primary_key", g.new(QualifiedId, "s", "t"))
    g.ensure_eq("the columns of the primary key in row order", g.to_list(got), g.map(rows, lambda r: g.new(LocalId, r)))
    g.cover("read")


class Letter:
    "One byte."

    def __init__(self, text):
        self.text = text

    def __eq__(self, other):
        return self.text == other.decode()


def mixed(g, module, cls, build, letters, target):
    "Rows of primary keys, unique constraints and foreign keys, in any order."
    factories(g, module)

    def row(g, p, text):
        n = text("name")
        k = text("kind") if g.symbolic else {"a": "p", "b": "u", "c": "f"}[g.choice("kind", ["a", "b", "c"])]
        if not g.symbolic:
            n, k = f"{k}_{n}", letters[k]
        return build(g, p, k, n, text)

    rows = catalog_rows(g, row)
    return rows


@contract("P16", "rows_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_table"], covers=("read",))
def rows_postgresql(g):
    cls = ps.PostgreSQLConstraintMeta

    def build(g, p, kind, name, text):
        return record(g, cls, constraint_type=g.new(Letter, kind) if g.symbolic else kind, constraint_name=name, source_column=text("source"),
                      target_namespace=text("schema") if g.symbolic else "s", target_table=text("table") if g.symbolic else name, target_column=text("target"))

    rows = mixed(g, ps, cls, build, {"p": b"p", "u": b"u", "f": b"f"}, None)
    is_kind = (lambda r, k: g.eq(r.constraint_type.text, k)) if g.symbolic else (lambda r, k: r.constraint_type == k.encode())
    conn = g.new(Connection, {cls: rows, ps.PostgreSQLTableMeta: record(g, ps.PostgreSQLTableMeta)})
    t = g.method(tables(g, own("postgresql", "PostgreSQLExplorer")(g, conn)), "get_table", g.new(QualifiedId, "s", "t"))
    table_of_rows(g, t, rows, is_kind, ("p", "u", "f"), lambda r: g.new(QualifiedId, r.target_namespace, r.target_table))


def table_of_rows(g, t, rows, is_kind, kinds, target):
    p, u, f = kinds
    g.ensure_eq("the primary key", g.to_list(t.primary_key), g.map(g.filter(rows, lambda r: is_kind(r, p)), lambda r: g.new(LocalId, r.source_column)))
    us = g.map(g.filter(rows, lambda r: is_kind(r, u)), lambda r: (r.constraint_name, g.new(LocalId, r.source_column)))
    fs = g.map(g.filter(rows, lambda r: is_kind(r, f)), lambda r: (r.constraint_name, g.new(LocalId, r.source_column), target(r), g.new(LocalId, r.target_column)))
    if g.symbolic:
        got = t.constraints if not g.truth(g.is_none(t.constraints)) else g.list_of()
        g.ensure_eq("every row is added, in order; unique constraints first", g.to_list(got), g.call(joined, us, fs))
    else:
        got = list(t.constraints.values())
        grouped(g, "unique", us, [c for c in got if type(c).__name__ == "UniqueConstraint"])
        grouped(g, "foreign", fs, [c for c in got if type(c).__name__ == "ForeignConstraint"])
    g.cover("read")


def joined(a, b):
    return [*a, *b]


@contract("P16", "rows_oracle", ["pysqlsync/dialect/oracle/discovery.py::OracleExplorer.get_table"], covers=("read",))
def rows_oracle(g):
    cls = oc.OracleConstraintMeta

    def build(g, p, kind, name, text):
        return record(g, cls, constraint_type=kind, constraint_name=name, source_column=text("source"), target_table=composite(g, p, name), target_column=text("target"))

    rows = mixed(g, oc, cls, build, {"p": "P", "u": "U", "f": "R"}, None)
    conn = g.new(Connection, {cls: rows})
    ex = own("oracle", "OracleExplorer")(g, conn)
    split_contract(g, ex)
    t = g.method(tables(g, ex), "get_table", g.new(PrefixedId, None, "t"))
    table_of_rows(g, t, rows, lambda r, k: g.eq(r.constraint_type, k), ("P", "U", "R"), lambda r: split(g, r.target_table))


SPLITS = {"mysql": ("MySQLExplorer", my), "oracle": ("OracleExplorer", oc)}


def join_names(a, b):
    return a + b


def split_id(g, dialect):
    "A table of a namespace is found under its composite name, and the other way round."
    cls, module = SPLITS[dialect]
    ex = own(dialect, cls)(g, g.new(Connection, {}))
    scope, name = g.name_text("scope"), g.name_text("name")
    g.assume(g.Not(g.contains(g.call(join_names, scope, "_"), "__")))
    qualified = g.bool("qualified") if not g.symbolic else g.flag("qualified")
    if not qualified:
        g.assume(g.Not(g.contains(name, "__")))
    i = g.method(ex, "get_qualified_id", scope if qualified else None, name)
    r = g.method(ex, "split_composite_id", g.attr(i, "local_id"))
    g.ensure_eq("the namespace", g.attr(r, "namespace"), scope if qualified else None)
    g.ensure_eq("the table", g.attr(r, "id"), name)
    g.ensure_eq("the name in the database", g.attr(r, "local_id"), g.attr(i, "local_id"))
    g.cover("qualified" if qualified else "plain")


for _d, (_c, _m) in SPLITS.items():
    _f = f"pysqlsync/dialect/{_d}/discovery.py::{_c}."
    contract("P16", f"split_id_{_d}", [_f + "split_composite_id", _f + "get_qualified_id"], covers=("qualified", "plain"))(lambda g, d=_d: split_id(g, d))


# ---------------------------------------------------------------------- the queries of a whole schema
def explored(g, dialect):
    "What is found in a random catalog, and what is in it."
    from contracts import catalogs as C
    from pysqlsync.formation.data_types import SqlDiscovery

    if g.symbolic:
        g.unsupported("the text of a query is a program in another language")
    schemas, tabs = C.catalog(g, dialect)
    flat = dialect in ("mysql", "oracle")
    if flat:
        current = schemas[0]
    else:
        current = g.choice("current schema", schemas)
    stmt = {"mssql": "SCHEMA_NAME()", "mysql": "DATABASE()"}.get(dialect, "CURRENT_SCHEMA()")
    db = C.Database(g, dialect, current, stmt)
    if dialect == "oracle":
        C.dba(db, tabs)
    elif dialect == "postgresql":
        C.pg_catalog(db, tabs)
    else:
        C.information_schema(db, tabs, dialect)
        if dialect == "mssql":
            C.sys_schema(db, tabs)
    if dialect == "ansi":
        class Ansi(fd.AnsiExplorer):
            def get_qualified_id(self, namespace, id):
                return QualifiedId(namespace, id)

            async def get_namespace(self, namespace_id):
                return await self.get_namespace_qualified(namespace_id)

            async def get_namespace_current(self):
                return await self.get_namespace_qualified()

        Ansi.__abstractmethods__ = frozenset()
        x = Ansi(db, SqlDiscovery(), ot.ObjectFactory())
    else:
        M = importlib.import_module(f"pysqlsync.dialect.{dialect}.discovery")
        x = next(v for n, v in vars(M).items() if n.endswith("Explorer") and v.__module__ == M.__name__)(db)
    return db, x, current, schemas, tabs, flat


def split_name(name):
    "The prefix and the rest of a composite name."
    a, sep, b = name.partition("__")
    return (a, b) if sep else (None, name)


def table_facts(t):
    "What a table says."
    return {
        "columns": [(c.name.id, bool(c.nullable), c.default, bool(c.identity), c.description or None) for c in t.columns.values()],
        "comment": t.description or None,
        "primary key": [c.id for c in t.primary_key],
        "unique": {k.name.id: [c.id for c in k.unique_columns] for k in t.constraints.values() if isinstance(k, ot.UniqueConstraint)},
        "foreign": {k.name.id: (k.reference.table.quoted_id, {(a.id, b.id) for a, b in zip(k.foreign_columns, k.reference.columns)})
                    for k in t.constraints.values() if isinstance(k, ot.ForeignConstraint)},
    }


def declared(t, flat, dialect, scoped, current):
    def target(k):
        s, n = k.target
        if flat:
            return PrefixedId(*split_name(n)).quoted_id
        # what is in the default schema of PostgreSQL has no schema in its name if the table itself has none
        return QualifiedId(None if dialect == "postgresql" and not scoped and s == current else s, n).quoted_id

    return {
        "columns": [(c.name, c.nullable, c.default, c.identity, c.comment) for c in t.columns],
        "comment": t.comment,
        "primary key": t.primary.columns,
        "unique": {k.name: k.columns for k in t.unique},
        "foreign": {k.name: (target(k), set(zip(k.columns, k.target_columns))) for k in t.foreign},
    }


def compare_tables(g, dialect, t, want, what):
    got = table_facts(t)
    for k in want:
        a, b = got[k], want[k]
        if dialect == "postgresql" and k in ("primary key", "unique"):
            # the query has no order
            a, b = (sorted(a), sorted(b)) if k == "primary key" else tuple({n: sorted(c) for n, c in z.items()} for z in (a, b))
        g.ensure(f"{k} of a table", a == b, (what, a, b))


def whole_schema(g, dialect):
    from contracts.catalogs import Malformed, NotUnderstood

    try:
        db, x, current, schemas, tabs, flat = explored(g, dialect)
        what = g.choice("what is explored", ["a table", "a schema", "the default schema"])
        if flat:
            # schemas are prefixes of names, in one database
            for t in [t for t in tabs if t.schema == current] if what == "a table" else []:
                compare_tables(g, dialect, run(x.get_table(PrefixedId(*split_name(t.name)))), declared(t, flat, dialect, True, current), t)
                g.cover("read")
            if what == "a table":
                return
            prefix = g.choice("schema", ["p", "q", "pp"]) if what == "a schema" else None
            ns = run(x.get_namespace(LocalId(prefix)) if prefix else x.get_namespace_current())
            want = {t.name: t for t in tabs if t.schema == current and split_name(t.name)[0] == prefix}
            found = {t.name.local_id: t for t in ns.tables.values()}
        else:
            if what == "a table":
                if dialect == "ansi":
                    g.ensure("constraints are known to be there", run(x.has_constraints()) and run(x.has_column_extended_info()))
                for t in tabs:
                    # tables without a schema are taken to be in dbo, in SQL Server
                    scoped = t.schema != current or dialect == "mssql" and current != "dbo" or g.bool("scoped")
                    id_ = QualifiedId(t.schema if scoped else None, t.name)
                    compare_tables(g, dialect, run(x.get_table(id_)), declared(t, flat, dialect, scoped, current), t)
                    if hasattr(x, "has_table"):
                        g.ensure("there is a table", run(x.has_table(id_)))
                        other = QualifiedId(id_.namespace, "nothing")
                        g.ensure("there is no such table", not run(x.has_table(other)))
                        for c in ("a", "b", "c"):
                            g.ensure("there is a column", run(x.has_column(id_, LocalId(c))) == any(k.name == c for k in t.columns), (t, c))
                    g.cover("read")
                names = run(x.get_table_names())
                g.ensure("the tables of all schemas", sorted((i.scope_id, i.local_id) for i in names) == sorted((t.schema, t.name) for t in tabs), names)
                return
            scope = g.choice("schema", schemas) if what == "a schema" else None
            if scope is None and dialect == "mssql" and current != "dbo":
                g.assume(False)
            ns = run(x.get_namespace(LocalId(scope)) if scope else x.get_namespace_current())
            want = {t.name: t for t in tabs if t.schema == (scope or current)}
            found = {t.name.local_id: t for t in ns.tables.values()}
            g.ensure("the scope of each table", all(t.name.scope_id == scope for t in found.values()), found)
        g.ensure("the tables of the schema", sorted(found) == sorted(want), (sorted(found), sorted(want)))
        for n in want:
            compare_tables(g, dialect, found[n], declared(want[n], flat, dialect, what != "the default schema", current), n)
        if dialect == "postgresql":
            compare_types(g, ns, scope, [x for x in db.structs if x.schema == (scope or current)], [x for x in db.enums if x.schema == (scope or current)])
        g.cover("read")
    except Malformed as e:
        g.fail("a query of the catalog is well-formed", str(e))
    except NotUnderstood:
        g.assume(False)


def compare_types(g, ns, scope, structs, enums):
    "The types of a schema."
    import pysqlsync.model.data_types as dt

    one = lambda array: dt.SqlArrayType(dt.SqlDateType()) if array else dt.SqlDateType()
    got = {t.name.local_id: ([(m.name.id, m.data_type, m.description) for m in t.members.values()], t.description or None) for t in ns.structs.values()}
    want = {x.name: ([(m, one(a), d) for m, a, d in x.members], x.comment) for x in structs}
    g.ensure("the composite types of the schema, with their members in order, and descriptions", got == want, (got, want))
    got, want = {e.name.local_id: list(e.values) for e in ns.enums.values()}, {x.name: x.values for x in enums}
    g.ensure("the enumerations of the schema, with their values in order", got == want, (got, want))
    g.ensure("the scope of each type", all(t.name.scope_id == scope for t in [*ns.structs.values(), *ns.enums.values()]), ns)
    if structs:
        g.cover("structures")
    if enums:
        g.cover("enumerations")


def run(awaitable):
    import asyncio

    return asyncio.run(awaitable)


for _d, _f in (("ansi", "pysqlsync/formation/discovery.py::AnsiExplorer."), ("mssql", "pysqlsync/dialect/mssql/discovery.py::MSSQLExplorer."),
               ("mysql", "pysqlsync/dialect/mysql/discovery.py::MySQLExplorer."), ("oracle", "pysqlsync/dialect/oracle/discovery.py::OracleExplorer."),
               ("postgresql", "pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.")):
    contract("P16", f"queries_{_d}", [_f + n for n in {"ansi": ["get_table", "get_table_names", "get_table_description", "has_table", "has_column", "has_constraints"],
                                                      "mssql": ["get_columns", "_get_namespace", "get_namespace", "get_namespace_current"],
                                                      "mysql": ["get_columns", "get_table_description", "get_namespace", "get_namespace_current"],
                                                      "oracle": ["get_table", "_get_namespace", "get_namespace", "get_namespace_current"],
                                                      "postgresql": ["get_table", "get_table_names", "has_table", "has_column", "get_namespace", "get_namespace_current", "get_struct"]}[_d]],
             covers=("read", "structures", "enumerations") if _d == "postgresql" else ("read",), samples=150, bounded="queries are texts: random catalogs of up to six tables, evaluated by SQLite")(lambda g, d=_d: whole_schema(g, d))


class Probed:
    "A connection that answers some queries."

    def __init__(self, failing):
        self.failing = failing
        self.count = 0

    async def query_one(self, signature, stmt):
        self.count += 1
        if self.count == self.failing:
            raise ValueError("no such table")
        return 1


class AnyAnsi(fd.AnsiExplorer):
    pass


AnyAnsi.__abstractmethods__ = frozenset()
AN = "pysqlsync/formation/discovery.py::AnsiExplorer."


@contract("P16", "probes", [AN + "has_constraints", AN + "has_column_extended_info"], covers=("there", "missing"), samples=60)
def probes(g):
    "Keys and details of columns are looked for exactly if the tables of the catalog that have them can be read; asked again, the answer is the same."
    which = g.choice("which", ["has_constraints", "has_column_extended_info"])
    failing = g.choice("failing", [0, 1, 2, 3])
    conn = g.new(Probed, failing)
    x = g.obj(AnyAnsi, conn=conn, _has_constraints=None, _has_column_extended_info=None)
    first = g.method(x, which)
    asked = g.attr(conn, "count")
    there = g.Or(g.eq(failing, 0), g.gt(failing, asked))
    g.ensure_eq("whether all can be read", first, there)
    g.ensure_eq("the same again", g.method(x, which), first)
    g.ensure("something is asked", g.gt(asked, 0))
    g.cover("there" if g.truth(there) else "missing")


# ---------------------------------------------------------------------- the current schema
CURRENT = {  # the functions that yield it, by the manuals of the databases; in MySQL and Oracle, schemas are prefixes of names
    "delta": ("current_schema()",), "mssql": ("schema_name()",), "mysql": ("database()", "schema()"),
    "oracle": ("sys_context('userenv', 'current_schema')", "sys_context('userenv','current_schema')"), "postgresql": ("current_schema()", "current_schema"),
    "redshift": ("current_schema()",), "snowflake": ("current_schema()",), "trino": ("current_schema", "current_schema()"),
}


class Answered:
    "The connection of a context."

    def __init__(self, generator):
        self.generator = generator


class Made:
    "A generator of the dialect."


def current_contract(g, dialect):
    "The current schema is the one the database says; there is none where schemas are prefixes of names."
    import pysqlsync.base as pb

    G = importlib.import_module(f"pysqlsync.dialect.{dialect}.generator")
    gen = next(v for v in vars(G).values() if isinstance(v, type) and issubclass(v, pb.BaseGenerator) and v.__module__ == G.__name__)
    generator = g.obj(gen)
    stmt = g.method(generator, "get_current_schema_stmt")
    g.ensure("a function of the dialect", g.method(stmt, "lower") in CURRENT[dialect], stmt)
    if dialect in ("delta", "snowflake"):
        # there is no connection
        g.cover("none")
        return
    M = importlib.import_module(f"pysqlsync.dialect.{dialect}.connection")
    cls = next(v for v in vars(M).values() if isinstance(v, type) and issubclass(v, pb.BaseContext) and v.__module__ == M.__name__)
    answer = g.opt("current", lambda n: g.name_text(n))

    class Asked(cls):
        async def query_all(self, signature, statement):
            self.asked.append(statement)
            return [self.answer]

    ctx = g.obj(Asked, connection=g.new(Answered, generator), asked=[], answer=answer)
    r = g.method(ctx, "current_schema")
    asked = g.items(g.attr(ctx, "asked"))
    if dialect in ("mysql", "oracle"):
        g.ensure("none", g.is_none(r), r)
        g.cover("none")
        return
    g.ensure("one query", len(asked) == 1, asked)
    g.ensure("that has the function", g.contains(asked[0], stmt), asked)
    g.ensure_eq("what the database says", r, answer)
    g.cover("none" if g.force(answer) is None else "known")


for _d in CURRENT:
    contract("P16", f"current_schema_{_d}", [f"pysqlsync/dialect/{_d}/generator.py::get_current_schema_stmt", "pysqlsync/base.py::BaseContext.current_schema"]
             + ([f"pysqlsync/dialect/{_d}/connection.py::current_schema"] if _d in ("mysql", "oracle") else []),
             covers=("none",) if _d in ("delta", "snowflake", "mysql", "oracle") else ("known",), samples=8)(lambda g, d=_d: current_contract(g, d))
