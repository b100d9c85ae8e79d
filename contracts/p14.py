"""P14 Statement execution rejects blanks, skips empty data and reports failures."""
from __future__ import annotations

import pysqlsync.base as pb
import pysqlsync.util.dispatch as pd

from contracts.effects import threads
from pyvc.contract import contract, finding

B = "pysqlsync/base.py::"
CHAINED = OSError("raised while the driver handled another failure")
CHAINED.__context__ = KeyError("inner")
CHAINED.__cause__ = CHAINED.__context__
FAILURES = (None, pb.QueryException("another statement"), CHAINED, ValueError("x"), KeyError("x"), RuntimeError("x"), Exception("x"),
            TimeoutError("x"), ConnectionError("x"))


class Call:
    def __init__(self, name, statement, argument=None):
        self.name = name
        self.statement = statement
        self.argument = argument


class Context(pb.BaseContext):
    "A context whose driver records what it is asked, then fails or returns."

    def __init__(self, failure, result):
        super().__init__(None)
        self.failure = failure
        self.result = result
        self.calls = []

    def end(self):
        if self.failure is not None:
            raise self.failure
        return self.result

    async def _execute(self, statement):
        self.calls.append(Call("execute", statement))
        return self.end()

    async def _execute_all(self, statement, source):
        self.calls.append(Call("execute_all", statement, source))
        return self.end()

    async def _query_all(self, signature, statement):
        self.calls.append(Call("query_all", statement, signature))
        return self.end()


def statement_of(g):
    kind = g.choice("statement", ["text", "empty", "blank"])
    s = {"text": lambda: g.text("sql"), "empty": lambda: "", "blank": lambda: g.choice("blank", [" ", "\n", " \t\r\n"])}[kind]()
    return s, g.eq(g.method(s, "strip"), "")


def reported(g, r, ctx, s):
    "A failure is a query error with the statement and the cause, and is not wrapped twice."
    f = ctx.failure
    if f is None:
        g.ensure("not refused", not r.raised, r)
        g.cover("success")
    elif isinstance(f, pb.QueryException):
        g.ensure("a query error is passed on", r.raised and r.value is f, r)
        g.cover("query error")
    else:
        g.ensure("a failure is reported as a query error", r.raised and type(r.value) is pb.QueryException, r)
        g.cover("failure")
        if r.raised and type(r.value) is pb.QueryException:
            g.ensure_eq("the query error has the statement", r.value.query, s)
            g.ensure("the query error has the cause", r.value.__cause__ is f, r.value.__cause__)


def refused(g, r, ctx):
    g.ensure("a blank statement is refused", r.raised and isinstance(r.value, ValueError), r)
    g.ensure("the database is not contacted", len(g.items(ctx.calls)) == 0, ctx.calls)
    g.cover("blank")


@contract("P14", "execute", [B + "BaseContext.execute"], covers=("blank", "success", "query error", "failure"))
def execute(g):
    s, blank = statement_of(g)
    ctx = g.new(Context, g.choice("failure", FAILURES), None)
    r = g.outcome(ctx, "execute", s)
    if g.truth(blank):
        return refused(g, r, ctx)
    calls = g.items(ctx.calls)
    g.ensure("one call", len(calls) == 1, calls)
    g.ensure_eq("the statement reaches the driver", calls[0].statement, s)
    reported(g, r, ctx, s)


class Stream:
    "An asynchronous iterable."

    def __init__(self, items):
        self.items = items

    async def __aiter__(self):
        for i in self.items:
            yield i


class Lazy:
    "An iterable that has no length."

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


@contract("P14", "execute_all", [B + "BaseContext.execute_all", B + "to_data_source"],
          covers=("blank", "no data", "success", "query error", "failure", "async"))
def execute_all(g):
    s, blank = statement_of(g)
    ctx = g.new(Context, g.choice("failure", FAILURES), None)
    kind = g.choice("records", ["list", "iterable", "async"])
    # a record may have no values at all
    empty = g.choice("a record is", ["a value", "an empty tuple"]) == "an empty tuple"
    items = g.seq("r", lambda p: () if empty else g.opaque(p))
    records = items if kind == "list" else g.new(Lazy if kind == "iterable" else Stream, items)
    r = g.outcome(ctx, "execute_all", s, records)
    if g.truth(blank):
        return refused(g, r, ctx)
    calls = g.items(ctx.calls)
    if kind == "list" and g.truth(g.eq(g.length(items), 0)):
        g.ensure("no data", not r.raised and len(calls) == 0, (r, calls))
        g.cover("no data")
        return
    g.ensure("one call", len(calls) == 1, calls)
    if len(calls) == 1:
        g.ensure_eq("the statement reaches the driver", calls[0].statement, s)
        src = calls[0].argument
        g.ensure("the records reach the driver", isinstance(src, pb.AsyncIterableDataSource if kind == "async" else pb.IterableDataSource)
                 and src.records is records, src)
    if kind == "async":
        g.cover("async")
    reported(g, r, ctx, s)


@contract("P14", "query", [B + "BaseContext.query_all", B + "BaseContext.query_one"], covers=("success", "query error", "failure"))
def query(g):
    s = g.text("sql")
    rows = g.seq("r", lambda p: g.opaque(p))
    signature = g.choice("signature", [str, int, tuple[str, int]])
    ctx = g.new(Context, g.choice("failure", FAILURES), rows)
    one = g.choice("function", ["query_all", "query_one"]) == "query_one"
    if one:
        g.assume(g.gt(g.length(rows), 0))
    r = g.outcome(ctx, "query_one" if one else "query_all", signature, s)
    calls = g.items(ctx.calls)
    g.ensure("one call", len(calls) == 1, calls)
    g.ensure_eq("the statement reaches the driver", calls[0].statement, s)
    g.ensure("the result is read as requested", calls[0].argument is signature, calls[0].argument)
    reported(g, r, ctx, s)
    if not r.raised:
        if one:
            g.ensure("the first row is returned", g.eq(r.value, g.item(rows, 0)), r)
        else:
            g.ensure("what the driver returned is returned", r.value is rows, r)


# ---------------------------------------------------------------------- threads
class Work:
    def __init__(self, failure, result):
        self.failure = failure
        self.result = result
        self.calls = []

    def run(self, *args, key=None):
        self.calls.append((args, key))
        if self.failure is not None:
            raise self.failure
        return self.result


@contract("P14", "thread_dispatch", ["pysqlsync/util/dispatch.py::thread_dispatch"], covers=("success", "failure", "refused"))
def thread_dispatch(g):
    threads(g)
    bad = g.choice("argument", ["function", "coroutine", "text"])
    if bad != "function":
        r = g.outcome(pd.thread_dispatch, None, pb.ScalarTransformer.get if bad == "coroutine" else "text")
        g.ensure("only functions are dispatched", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
        return
    failure = g.choice("failure", (None, ValueError("x"), CHAINED, pb.QueryException("x")))
    w = g.new(Work, failure, g.opaque("result"))
    x, y = g.opaque("x"), g.opaque("y")
    f = g.call(pd.thread_dispatch, w.run)
    r = g.outcome(f, None, x, key=y)
    calls = g.items(w.calls)
    g.ensure("one call", len(calls) == 1, calls)
    args, key = g.items(calls[0])
    g.ensure_eq("the positional arguments are passed on", g.list_of(*g.items(args)), g.list_of(x))
    g.ensure_eq("the named arguments are passed on", key, y)
    if failure is None:
        g.ensure("the result is returned", not r.raised and g.eq(r.value, w.result), r)
        g.cover("success")
    else:
        g.ensure("the failure is passed on", r.raised and r.value is failure, r)
        g.cover("failure")


# ---------------------------------------------------------------------- the drivers
import pysqlsync.dialect.mssql.connection as ms
import pysqlsync.dialect.mysql.connection as my
import pysqlsync.dialect.oracle.connection as oc
import pysqlsync.dialect.postgresql.connection as pg
import pysqlsync.dialect.redshift.connection as rs
import pysqlsync.dialect.trino.connection as tr

from contracts.p15 import One, Rec, Three, Values, cell_of


class Cursor:
    "A cursor of a driver: it can be entered, left and awaited."

    def __init__(self, native):
        self.native = native
        self.inputs = None
        self.rowfactory = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.native.commit()
        return False

    def close(self):
        pass

    def setinputsizes(self, *sizes):
        self.inputs = sizes

    @property
    def description(self):
        return self.native.columns

    def commit(self):
        self.native.commit()

    def execute(self, statement, *args, **kwargs):
        self.native.events.append("executed")
        self.native.calls.append(Call("execute", statement, args))
        self.native.end()
        return self

    def executemany(self, statement, records):
        self.native.events.append("executed")
        self.native.calls.append(Call("executemany", statement, records))
        return self.native.end()

    def fetchall(self):
        self.native.fetched += 1
        if self.rowfactory is None:
            return self.native.rows
        return [self.rowfactory(*r) for r in self.native.rows]


class AsyncCursor(Cursor):
    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        return False

    def __await__(self):
        if False:
            yield
        return self

    async def execute(self, statement, *args):
        return Cursor.execute(self, statement, *args)

    async def executemany(self, statement, records):
        return Cursor.executemany(self, statement, records)

    async def fetchall(self):
        return Cursor.fetchall(self)


class Native:
    "A connection of a driver."

    def __init__(self, asynchronous, failure, rows=(), columns=()):
        self.asynchronous = asynchronous
        self.failure = failure
        self.rows = rows
        self.columns = columns
        self.calls = []
        self.fetched = 0
        self.events = []

    def commit(self):
        self.events.append("committed")

    def end(self):
        if self.failure is not None:
            raise self.failure

    def cursor(self, *args):
        return AsyncCursor(self) if self.asynchronous else Cursor(self)

    async def execute(self, statement):
        self.calls.append(Call("execute", statement))
        self.end()

    async def executemany(self, statement, records):
        self.calls.append(Call("executemany", statement, records))
        self.end()

    async def fetch(self, statement):
        self.calls.append(Call("execute", statement))
        self.end()
        self.fetched += 1
        return self.rows


class Batches(pb.DataSource):
    def __init__(self, items):
        self.items = items

    async def batches(self):
        for i in self.items:
            yield i


DRIVERS = {
    "postgresql": (pg.PostgreSQLConnection, pg.PostgreSQLContext, True),
    "mysql": (my.MySQLConnection, my.MySQLContext, True),
    "mssql": (ms.MSSQLConnection, ms.MSSQLContext, False),
    "oracle": (oc.OracleConnection, oc.OracleContext, False),
    "redshift": (rs.RedshiftConnection, rs.RedshiftContext, False),
    "trino": (tr.TrinoConnection, tr.TrinoContext, True),
}
SPLIT = ("oracle", "redshift")


def context_of(g, name, **kw):
    connection, context, asynchronous = DRIVERS[name]
    native = g.new(Native, asynchronous, g.choice("failure", (None, ValueError("x"), CHAINED)), **kw)
    conn = g.obj(connection, native=native, generator=None, params=None)
    threads(g)
    return g.new(context, conn), native


class Failing:
    def __init__(self, failure):
        self.failure = failure


def driver_executes(g, name):
    ctx, native = context_of(g, name)
    if name in SPLIT:
        # the drivers of these databases take one statement at a time
        parts = [g.choice(f"statement {n}", PARTS) for n in range(g.choice("number of statements", [1, 2, 3]))]
        s = "\n".join(p + ";" for p in parts) + g.choice("end", ["", "\n", " "])
        want = [p.strip() for p in parts]
        if name == "oracle" and g.choice("block", [False, True]):
            s = "BEGIN\n" + s + "\nEND;"
            want = [s]
    else:
        s = g.text("sql")
        g.assume(g.Not(g.eq(g.method(s, "strip"), "")))
        want = [s]
    r = g.outcome(ctx, "execute", s)
    calls = g.items(native.calls)
    got = [g.method(c.statement, "strip") if name in SPLIT and len(want) + len(s) and not s.startswith("BEGIN") else c.statement for c in calls]
    if native.failure is not None:
        want = want[:1]
    g.ensure("every statement reaches the driver once, in order", len(got) == len(want) and g.And(*[g.eq(x, y) for x, y in zip(got, want)]), (got, want))
    committed(g, name, native, g.list_of(s))
    surfaces(g, r, native, s, calls)


def committed(g, name, native, batches):
    "A cursor of SQL Server commits what was executed when it is left; sessions of the other databases commit each statement (P17)."
    if name == "mssql" and native.failure is None:
        all_committed(g, native.events, batches)


def all_committed(g, events, batches):
    "Nothing is executed after the last time that what was executed is committed."
    if not g.symbolic:
        g.ensure("what is executed is committed", not events or events[-1] == "committed", events)
        return
    for want in (g.flat(g.map(batches, lambda b: g.list_of("executed", "committed"))), g.list_of(*g.items(g.map(batches, lambda b: "executed")), "committed")):
        if g.proves_eq(events, want):
            g.ensure("what is executed is committed", True)
            return
    g.unsupported("another way to commit")


PARTS = ["INSERT INTO t VALUES (1)", "UPDATE t SET a = 'x;y'", "COMMENT ON TABLE t IS 'it''s; so'", "CREATE TABLE t (\na int,\nb int\n)"]


def surfaces(g, r, native, s, calls):
    f = native.failure
    if f is None:
        g.ensure("not refused", not r.raised, r)
        g.cover("success")
    else:
        g.ensure("a failure is reported as a query error", r.raised and isinstance(r.value, pb.QueryException), r)
        if r.raised:
            g.ensure("the query error has the statement that failed", g.Or(g.eq(r.value.query, s), g.eq(r.value.query, calls[0].statement)), r)
            g.ensure("the query error has the cause", r.value.__cause__ is f, r.value.__cause__)
        g.cover("failure")


def driver_executes_all(g, name):
    ctx, native = context_of(g, name)
    s = g.text("sql")
    if not g.symbolic:
        s += g.choice("end", ["", ";", " ;\n"])
    items = g.seq("b", lambda p: g.seq(f"{p}.r", lambda q: g.opaque(q)))
    source = g.new(Batches, items)
    table = order = None
    how = "_execute_all"
    g.assume(native.failure is None)
    r = g.outcome(ctx, how, s, source)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    committed(g, name, native, items)
    want = g.map(items, lambda b: g.new(Call, "executemany", text_of(g, name, s), b))
    strip = (lambda c: g.method(c.statement, "strip")) if name == "oracle" else (lambda c: c.statement)
    g.ensure_eq("every batch of records reaches the driver once, in order, with the statement",
                g.map(native.calls, lambda c: g.list_of(c.name, c.statement, g.to_list(c.argument))),
                g.map(want, lambda c: g.list_of(c.name, c.statement, g.to_list(c.argument))))
    g.cover("batches")


def text_of(g, name, s):
    "Oracle takes a statement without the semicolon at the end."
    return g.method(s, "rstrip", "\r\n\t\v ;") if name == "oracle" else s


def driver_queries(g, name):
    columns = ["b", "a", "c"] if name != "oracle" else ["c", "a", "b"]
    cls = g.choice("signature", [Three, str, tuple[str, int, bool]])
    cells = lambda p: [g.opt(f"{p}.{n}", lambda q: g.opaque(q)) for n in (columns if cls is not str else ["a"])]

    def make(p):
        xs = cells(p)
        if name == "postgresql":
            return g.new(Record, [(n, x) for n, x in zip(columns, xs)], xs)
        if name == "mysql" and cls is Three:
            # a row of DictCursor
            return dict([(n, x) for n, x in zip(columns, xs)])
        if name == "mssql" and cls is Three:
            return g.obj(Rec, **{n: x for n, x in zip(columns, xs)})
        return list(xs) if name == "redshift" else tuple(xs)

    rows = g.seq("r", make)
    ctx, native = context_of(g, name, rows=rows, columns=[(n, None) for n in columns])
    s = g.text("sql")
    r = g.outcome(ctx, "query_all", cls, s)
    calls = g.items(native.calls)
    if name == "trino" and cls is Three:
        g.ensure("objects cannot be asked for", r.raised, r)
        g.cover("refused")
        return
    g.ensure("the statement reaches the driver once", len(calls) == 1 and g.eq(calls[0].statement, s), calls)
    surfaces(g, r, native, s, calls)
    if r.raised:
        return

    def get(x, n):
        if name == "mssql":
            return getattr(x, n)
        if name in ("redshift", "oracle"):
            return g.item(x, columns.index(n))
        return g.item(x, n) if name == "mysql" else cell_of(g, x, n)

    if cls is Three:
        g.ensure_eq("one object per row", g.map(r.value, lambda o: g.new(Values, o.a, o.b, o.c)),
                    g.map(rows, lambda x: g.new(Values, get(x, "a"), get(x, "b"), get(x, "c"))))
        g.cover("objects")
        return
    rows = g.split_first(rows)
    if cls is str:
        g.ensure_eq("one cell per row", r.value, g.map(rows, lambda x: g.item(x.cells if name == "postgresql" else x, 0)))
    else:
        tup = lambda x: g.new(Values, *[g.item(x, n) for n in range(3)])
        g.ensure_eq("one tuple per row", g.map(r.value, tup), g.map(rows, lambda x: tup(x.cells if name == "postgresql" else x)))


class Record(Rec):
    "A row of asyncpg."

    def __init__(self, pairs, cells):
        self.pairs = pairs
        self.cells = cells

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        return iter(self.cells)


for _n, (_c, _x, _a) in DRIVERS.items():
    _f = f"pysqlsync/dialect/{_n}/connection.py::{_x.__name__}."
    contract("P14", f"{_n}_execute", [_f + "_execute"], covers=("success", "failure"),
             bounded="scripts of up to three statements from a fixed list" if _n in SPLIT else None)(lambda g, n=_n: driver_executes(g, n))
    contract("P14", f"{_n}_query_all", [_f + "_query_all"], covers=("success", "failure") + (("objects",) if _n != "trino" else ("refused",)))(
        lambda g, n=_n: driver_queries(g, n))
    if _n != "trino":
        contract("P14", f"{_n}_execute_all", [_f + "_execute_all"], covers=("batches",))(lambda g, n=_n: driver_executes_all(g, n))


@contract("P14", "trino_refuses", [f"pysqlsync/dialect/trino/connection.py::TrinoContext.{n}" for n in ("_execute_all", "insert_data", "_insert_rows", "_upsert_rows")]
          + ["pysqlsync/dialect/trino/generator.py::TrinoGenerator.placeholder"], covers=("refused",), samples=20)
def trino_refuses(g):
    "What is not done with a database is refused, not passed over in silence."
    import pysqlsync.dialect.trino.generator as tg

    ctx, native = context_of(g, "trino")
    a, b = g.opaque("a"), g.opaque("b")
    for name, args, kw in (("_execute_all", (g.text("sql"), a), {}), ("insert_data", (a, b), {}),
                           ("_insert_rows", (a, b), dict(field_types=(int,), field_names=None)), ("_upsert_rows", (a, b), dict(field_types=(int,), field_names=None))):
        r = g.outcome(ctx, name, *args, **kw)
        g.ensure(f"{name} is refused", r.raised, r)
    r = g.outcome(g.obj(tg.TrinoGenerator), "placeholder", g.int("n", 1, 100))
    g.ensure("a statement with parameters is refused", r.raised, r)
    g.ensure_eq("nothing is sent", len(g.items(native.calls)), 0)
    g.cover("refused")


@finding("P14")
def split_inside_a_literal():
    "Recorded defect: a script is split at a semicolon that ends a line even inside a literal."
    import asyncio

    bad = []
    for name in SPLIT:
        connection, context, _ = DRIVERS[name]
        conn = object.__new__(connection)
        conn.native = Native(False, None)
        asyncio.run(context(conn).execute("UPDATE t SET a = 'x;\ny';"))
        if len(conn.native.calls) != 1:
            bad.append(name)
    return f"{', '.join(bad)}: UPDATE t SET a = 'x;\\ny' is sent as two statements" if bad else None
