"""P15 Result sets are decoded row for row without loss or reordering."""
from __future__ import annotations

import dataclasses
from dataclasses import dataclass
from typing import Any, Optional

import pysqlsync.resultset as rs

from pyvc.contract import contract, finding

R = "pysqlsync/resultset.py::"


@dataclass
class One:
    a: Any


@dataclass
class Three:
    c: Any
    a: Any
    b: Any = None


@dataclass
class Keyword:
    b: Any
    a: Optional[int] = dataclasses.field(default=None, kw_only=True)


CLASSES = [One, Three, Keyword]


class Rec:
    "A row that maps the names of the columns to the values."

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs

    def keys(self):
        return [k for k, _ in self.pairs]

    def values(self):
        return [v for _, v in self.pairs]

    def get(self, key, default=None):
        for k, v in self.pairs:
            if k == key:
                return v
        return default

    def __len__(self):
        return len(self.pairs)

    def __contains__(self, key):
        return key in [k for k, _ in self.pairs]

    def __iter__(self):
        # the values, as with the records of asyncpg
        return iter([v for _, v in self.pairs])

    def __getitem__(self, key):
        for n in range(len(self.pairs)):
            if n == key or self.pairs[n][0] == key:
                return self.pairs[n][1]
        raise KeyError(key)


class Row:
    "A row of which the columns are attributes."


def orders(names):
    if len(names) < 2:
        return [list(names)]
    return [list(names), list(reversed(names))] + ([[names[1], names[2], names[0]]] if len(names) == 3 else [])


def names_of(cls):
    return [f.name for f in dataclasses.fields(cls)]


def cell(g, p):
    return g.opt(p, lambda q: g.opaque(q))


def objects(g, r, records, names, get):
    "One object per row, in order, each field the cell of that name."
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    want = g.map(records, lambda x: g.new(Values, *[get(x, n) for n in names]))
    got = g.map(r.value, lambda o: g.new(Values, *[g.attr(o, n) for n in names]))
    g.ensure_eq("one object per row, in row order, field by field", got, want)
    g.cover("rows")


@dataclass
class Values:
    a: Any = None
    b: Any = None
    c: Any = None


def unwrap(g, f, make, get):
    cls = g.choice("signature", CLASSES + [int, tuple[int, str]])
    order = g.choice("order of the columns", orders(names_of(cls)) if cls in CLASSES else [[]])
    records = g.seq("r", lambda p: make(p, order))
    r = g.outcome(f, None, cls, records)
    if cls not in CLASSES:
        g.ensure("other shapes are rejected", r.raised and isinstance(r.value, TypeError), r)
        g.cover("rejected")
        return
    g.ensure("a list", True if r.raised else g.isinstance(r.value, list), r)
    objects(g, r, records, names_of(cls), get)


@contract("P15", "unwrap_dict", [R + "resultset_unwrap_dict"], covers=("rejected", "rows"))
def unwrap_dict(g):
    plain = g.choice("a row is", ["a dictionary", "a record"]) == "a dictionary"

    def make(p, order):
        cells = [(n, cell(g, f"{p}.{n}")) for n in order]
        return dict(cells) if plain else g.new(Rec, cells)

    unwrap(g, rs.resultset_unwrap_dict, make, lambda x, n: g.item(x, n) if plain else cell_of(g, x, n))


def cell_of(g, x, n):
    return next(v for k, v in [g.items(i) for i in g.items(x.pairs)] if k == n)


@contract("P15", "unwrap_object", [R + "resultset_unwrap_object"], covers=("rejected", "rows"))
def unwrap_object(g):
    def make(p, order):
        return g.obj(Row, **{n: cell(g, f"{p}.{n}") for n in order}, other=None)

    unwrap(g, rs.resultset_unwrap_object, make, lambda x, n: getattr(x, n))


SIMPLE = [bool, int, float, str]
TUPLES = [tuple[int], tuple[str, int], tuple[int, str, bool], tuple[Optional[str], int]]


class Sequence:
    "A row that is a sequence but not a tuple."

    def __init__(self, cells):
        self.cells = cells

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        return iter(self.cells)

    def __getitem__(self, n):
        return self.cells[n]


@contract("P15", "unwrap_tuple", [R + "resultset_unwrap_tuple"],
          covers=("rejected", "no rows", "shape", "cells", "tuples", "other sequences"))
def unwrap_tuple(g):
    sig = g.choice("signature", SIMPLE + TUPLES + [One, list[int], dict, bytes])
    width = g.choice("number of columns", [0, 1, 2, 3])
    kind = g.choice("rows", ["tuple", "list", "sequence"])

    def make(p):
        cells = [cell(g, f"{p}.{n}") for n in range(width)]
        return tuple(cells) if kind == "tuple" else cells if kind == "list" else g.new(Sequence, cells)

    records = g.seq("r", make)
    r = g.outcome(rs.resultset_unwrap_tuple, None, sig, records)
    if sig not in SIMPLE + TUPLES:
        g.ensure("other shapes are rejected", r.raised and isinstance(r.value, TypeError), r)
        g.cover("rejected")
        return
    if g.truth(g.eq(g.length(records), 0)):
        g.ensure("no rows", not r.raised and g.And(g.isinstance(r.value, list), g.eq(g.length(r.value), 0)), r)
        g.cover("no rows")
        return
    records = g.split_first(records)
    need = 1 if sig in SIMPLE else len(sig.__args__)
    if width != need:
        g.ensure("rows that do not fit are rejected", r.raised and isinstance(r.value, ValueError), r)
        g.cover("shape")
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    g.ensure("a list", g.isinstance(r.value, list), r)
    at = lambda x, n: g.item(x.cells if kind == "sequence" else x, n)
    if sig in SIMPLE:
        g.ensure_eq("the cell of every row, in order", r.value, g.map(records, lambda x: at(x, 0)))
        g.cover("cells")
        return
    g.cover("tuples" if kind == "tuple" else "other sequences")
    want = g.map(records, lambda x: g.new(Values, *[at(x, n) for n in range(width)]))
    got = g.map(r.value, lambda t: g.new(Values, *[g.item(t, n) for n in range(width)]))
    g.ensure_eq("the cells of every row, in order", got, want)
    g.map(r.value, lambda t: g.ensure("every row is a tuple of the width", g.And(g.isinstance(t, tuple), len(g.items(t)) == width), t))


@finding("P15")
def oracle_by_position():
    "Recorded defect: with Oracle the columns of a result set are assigned to the fields by position, not by name."
    import asyncio

    import pysqlsync.dialect.oracle.connection as oc
    from contracts.p14 import Cursor, Native

    class OracleCursor(Cursor):
        rowfactory = None

        def fetchall(self):
            # oracledb calls the factory with the values of the row, in the order of the columns
            return [self.rowfactory(*row) if self.rowfactory else row for row in self.native.rows]

    class OracleNative(Native):
        def cursor(self):
            return OracleCursor(self)

    conn = object.__new__(oc.OracleConnection)
    conn.native = OracleNative(False, None, [("of b", "of a")], [("B", None), ("A", None)])
    r = asyncio.run(oc.OracleContext(conn).query_all(Keyless, "SELECT b, a FROM t"))
    return "Oracle: SELECT b, a into a data-class (a, b) swaps the values" if r[0].a == "of b" else None


@dataclass
class Keyless:
    a: Any
    b: Any
