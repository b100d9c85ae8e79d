"""P02 Text embedded as a SQL literal decodes back to the same text."""
from __future__ import annotations

import asyncio
import dataclasses
import datetime
import enum
import decimal
import importlib

from pysqlsync.dialect.mysql import object_types as mysql_ot
from pysqlsync.dialect.mysql import connection as mysql_conn
from pysqlsync.formation import discovery as fd
from pysqlsync.formation import object_types as ot
from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from contracts.common import lit_atom, sql_type
from pyvc.contract import contract, finding
from pyvc.values import rope
from spec import chars, sql

try:
    from pysqlsync.dialect.oracle import connection as oracle_conn
    from pysqlsync.dialect.oracle import discovery as oracle_disc
except Exception:  # driver not installed
    oracle_conn = oracle_disc = None

D = "pysqlsync/model/data_types.py::"
READERS = {"standard": chars.STANDARD, "postgresql": chars.POSTGRESQL, "mysql": chars.MYSQL, "snowflake": chars.SNOWFLAKE, "delta": chars.DELTA}
# characters that texts are free of in the dialects whose literals are not those of standard SQL: see known findings
EXCLUDED = {"standard": "", "postgresql": "", "mysql": "\\", "snowflake": "\\", "delta": "\\'"}
# what may surround a literal: a letter right before it would be read as its prefix
BEFORE, AFTER = "SELECT * FROM t WHERE x = ", " AND (y = 'z');"


def anything(g, name):
    "A text with any adjacency of special characters."
    if g.symbolic or g.rng.random() < 0.3:
        return g.text(name)
    n = g.rng.choice([1, 2, 3, 4, 8])
    return g.note(name, "".join(g.rng.choice("\\\\''\"`\0\b\f\n\r\t\x1a\v%_~01bnrtZ;- aé\u2028") for _ in range(n)))


def free_of(g, t, characters):
    for c in characters:
        g.assume(g.Not(g.call(within, t, c)))


def within(t, c):
    return c in t


def reads_back(g, dialect, literal, t, before=BEFORE):
    r = chars.tokens(g, READERS[dialect], rope(before, literal, AFTER), f"{dialect} literal")
    if r is not None:
        # the letter in front of an escape string
        head = before + "E" if r and r[0] == ("text", before + "E") else before
        g.ensure_eq("the database reads back the text, and the statement around it", r,
                    [("text", head), ("str", t), ("text", " AND (y = "), ("str", "z"), ("text", ");")])
        g.cover("read")


# ---------------------------------------------------------------------- literals
def quoting(g, dialect):
    t = anything(g, "text")
    free_of(g, t, EXCLUDED[dialect])
    f = dt.quote if g.choice("function", ["quote", "constant"]) == "quote" else dt.constant
    reads_back(g, dialect, g.call(f, t), t)


for _d in READERS:
    contract("P02", f"quote_{_d}", [D + "quote", D + "constant"], covers=("read",), samples=600)(lambda g, d=_d: quoting(g, d))


def quoted_string(g, dialect):
    m = importlib.import_module(f"pysqlsync.dialect.{dialect}.object_types")
    t = anything(g, "text")
    reads_back(g, dialect, g.call(m.sql_quoted_string, t), t)


for _d in ("postgresql", "mysql", "snowflake", "delta"):
    contract("P02", f"sql_quoted_string_{_d}", [f"pysqlsync/dialect/{_d}/object_types.py::sql_quoted_string"], covers=("read",), samples=900)(
        lambda g, d=_d: quoted_string(g, d))


@dataclasses.dataclass
class Pair:
    second: str
    first: object


@contract("P02", "constant_compound", [D + "constant"], covers=("tuple", "class"))
def constant_compound(g):
    "Components in order in one pair of parentheses, each a literal."
    if g.symbolic:
        g.override(dt.quote, lit_atom)
    xs = g.seq("x", lambda p: g.text(p))
    if g.choice("kind", ["tuple", "class"]) == "tuple":
        v = g.to_tuple(xs)
        want = xs
        g.cover("tuple")
    else:
        a, b = g.text("a"), g.text("b")
        v = g.new(Pair, a, b)
        want = g.list_of(a, b)
        g.cover("class")
    s = g.call(dt.constant, v)
    c = sql.Cursor(sql.lex(s))
    items = sql.commas(c.group())
    g.ensure("nothing follows", c.done(), s)
    g.ensure_eq("each component, in order", g.list_of(*sql.smap(items, lambda i: [string_of(i)])), want)


def string_of(i):
    if len(i) != 1 or i[0][0] != "str":
        raise sql.SpecError(f"not a literal: {i}")
    return i[0][1]


@contract("P02", "constant_number", [D + "constant"], covers=("number", "truth"))
def constant_number(g):
    if g.flag("truth value"):
        b = g.bool("b")
        g.ensure_eq("a truth value", g.call(dt.constant, b), "TRUE" if g.truth(b) else "FALSE")
        g.cover("truth")
        return
    n = g.int("n", -(10 ** 12), 10 ** 12)
    s = g.call(dt.constant, n)
    if g.symbolic:
        g.ensure_eq("the digits of the number", s, g.str(n))
    else:
        g.ensure("the same number", int(s) == n, s)
        for x in (g.rng.uniform(-1e6, 1e6), g.rng.uniform(-1, 1) * 10.0 ** g.rng.randint(-300, 300)):
            g.ensure("the same number", float(dt.constant(x)) == x, x)
        d = decimal.Decimal(g.rng.randint(-10 ** 9, 10 ** 9)).scaleb(g.rng.randint(-12, 3))
        g.ensure("the same number", decimal.Decimal(dt.constant(d)) == d, d)
    g.cover("number")


@contract("P02", "constant_member", [D + "constant"], covers=("member",))
def constant_member(g):
    "A member of an enumeration is written as its value."
    if g.symbolic:
        g.override(dt.quote, lit_atom)
    v = g.text("value")
    member = g.obj(Enumeration, value=v) if g.symbolic else enum.Enum("Enumeration", {"member": v}).member
    s = g.call(dt.constant, member)
    c = sql.lex(s)
    g.ensure("one literal", len(c) == 1 and c[0][0] == "str", s)
    g.ensure_eq("of the value", c[0][1], v)
    g.cover("member")


class Enumeration(enum.Enum):
    "An enumeration with some values."


@contract("P02", "constant_date", [D + "constant"], bounded="dates and times are native: random ones", covers=("date", "time"))
def constant_date(g):
    "Dates and times of day."
    if g.symbolic:
        g.unsupported("dates")
    if g.flag("date"):
        t = datetime.date.fromordinal(g.rng.randint(1, datetime.date.max.toordinal()))
    else:
        t = datetime.time(g.rng.randrange(24), g.rng.randrange(60), g.rng.choice([0, g.rng.randrange(60)]), g.rng.choice([0, 0, g.rng.randrange(1000000)]))
    r = chars.tokens(g, chars.STANDARD, dt.constant(t))
    g.ensure("one literal", len(r) == 1 and r[0][0] == "str", r)
    g.ensure("the same date or time", type(t).fromisoformat(r[0][1]) == t, (r, t))
    g.cover("date" if isinstance(t, datetime.date) else "time")


@contract("P02", "constant_timestamp", [D + "constant"], bounded="arithmetic of datetime is native: random times", covers=("time",))
def constant_timestamp(g):
    "In coordinated universal time."
    if g.symbolic:
        g.unsupported("datetime arithmetic")
    t = datetime.datetime(g.rng.randint(1, 9999), g.rng.randint(1, 12), g.rng.randint(2, 27), g.rng.randrange(24), g.rng.randrange(60),
                          g.rng.randrange(60), g.rng.choice([0, 0, g.rng.randrange(1000000)]))
    if g.flag("aware"):
        t = t.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=g.rng.randint(-700, 700))))
    r = chars.tokens(g, chars.STANDARD, dt.constant(t))
    g.ensure("one literal", len(r) == 1 and r[0][0] == "str", r)
    back = datetime.datetime.fromisoformat(r[0][1])
    g.ensure("without a time zone", back.tzinfo is None, r)
    g.ensure("of the same time", back == (t if t.tzinfo is None else t.astimezone(datetime.timezone.utc).replace(tzinfo=None)), (r, t))
    g.cover("time")


class Strange:
    pass


@contract("P02", "constant_unknown", [D + "constant"], covers=("refused",))
def constant_unknown(g):
    "What cannot be written as a constant is refused."
    v = g.choice("value", [Strange(), b"x", [1], {"a": 1}, None, datetime.timedelta(1), Strange])
    r = g.outcome(dt.constant, None, v)
    g.ensure("refused", r.raised, r)
    g.cover("refused")


@contract("P02", "enum_type", [D + "SqlEnumType.__str__", "pysqlsync/formation/object_types.py::EnumType.create_stmt"], covers=("type", "statement"))
def enum_type(g):
    "Values of enumerations, in order, each a literal."
    if g.symbolic:
        g.override(dt.quote, lit_atom)
    xs = g.seq("x", lambda p: g.text(p))
    if g.flag("type"):
        c = sql.Cursor(sql.lex(g.method(g.new(dt.SqlEnumType, xs), "__str__")))
        c.word("ENUM")
        g.cover("type")
    else:
        c = sql.Cursor(sql.lex(g.method(g.obj(ot.EnumType, name=g.new(LocalId, "e"), values=xs), "create_stmt")))
        c.word("CREATE", "TYPE")
        g.ensure_eq("the name", c.ident(), "e")
        c.word("AS", "ENUM")
        g.cover("statement")
    items = sql.commas(c.group())
    g.ensure_eq("each value, in order", g.list_of(*sql.smap(items, lambda i: [string_of(i)])), xs)


# ---------------------------------------------------------------------- comments in each dialect
def size(t):
    return len(t)


def comment_text(g, dialect, t):
    "What is expected of a comment: MySQL has the first line only."
    if dialect == "mysql":
        # texts of one line of a permitted length; what becomes of others is not a matter of quoting
        free_of(g, t, "\n")
    return t


COLUMNS = {"mysql": "MySQLColumn", "delta": "DeltaColumn", "snowflake": "SnowflakeColumn"}


def comment(g, dialect):
    "The comment of a column, in its definition."
    m = importlib.import_module(f"pysqlsync.dialect.{dialect}.object_types")
    t = comment_text(g, dialect, anything(g, "description"))
    if dialect == "mysql" and g.symbolic:
        # a comment of a permitted length
        g.assume(g.Not(g.gt(g.call(size, t), 1024)))
    c = g.new(getattr(m, COLUMNS[dialect]), g.new(LocalId, g.name_text("name")), sql_type(g, "type", [dt.SqlUuidType, dt.SqlJsonType]), g.bool("nullable"),
              description=t)
    s = g.attr(c, "column_spec")
    r = chars.tokens(g, READERS[dialect], s, f"{dialect} column")
    if r is not None:
        g.ensure_eq("the name is read back", r[0], ("id", c.name.id))
        g.ensure_eq("the comment is read back", r[-1], ("str", t))
        g.ensure("there is nothing else", len(r) == 3 and r[1][0] == "text", r)
        g.cover("read")


def table_comment(g, dialect):
    m = importlib.import_module(f"pysqlsync.dialect.{dialect}.object_types")
    cls = getattr(m, {"mysql": "MySQLTable", "delta": "DeltaTable", "snowflake": "SnowflakeTable", "postgresql": "PostgreSQLTable"}[dialect])
    t = comment_text(g, dialect, g.name_text("description"))
    name = g.new(LocalId, "t")
    id_ = g.new(LocalId, "id")
    t = g.new(cls, g.new(QualifiedId, None, "t"), g.list_of(g.new(ot.Column, id_, dt.SqlUuidType(), False)),
              primary_key=(id_,), description=t)
    s = g.method(t, "create_stmt")
    r = chars.tokens(g, READERS[dialect], s, f"{dialect} statement")
    if r is not None:
        found = [x for k, x in r if k == "str"]
        g.ensure_eq("the comment is the one literal", g.list_of(*found), g.list_of(t.description))
        g.cover("read")


for _d in COLUMNS:
    contract("P02", f"comment_{_d}", [f"pysqlsync/dialect/{_d}/object_types.py::{COLUMNS[_d]}.comment"], covers=("read",), samples=500)(lambda g, d=_d: comment(g, d))
for _d in (*COLUMNS, "postgresql"):
    contract("P02", f"table_comment_{_d}", [f"pysqlsync/dialect/{_d}/object_types.py::create_stmt"], covers=("read",), samples=400)(lambda g, d=_d: table_comment(g, d))


# ---------------------------------------------------------------------- LIKE
@contract("P02", "escape_like", [D + "escape_like"], covers=("matched",), samples=900)
def escape_like(g):
    "The text is matched literally."
    t = anything(g, "text")
    esc = g.choice("escape character", ["~", "!", "\\", "#"])
    s = g.call(dt.escape_like, t, esc)
    matches(g, rope("x LIKE '", s, "'"), esc, [t], chars.STANDARD)


def matches(g, text, escape, want, reader):
    r = chars.tokens(g, reader, text)
    if r is None:
        return
    found = [x for (_, before), (k, x) in zip(r, r[1:]) if k == "str" and isinstance(before, str) and before.endswith("LIKE ")]
    g.ensure("there is a pattern", len(found) >= 1, r)
    if not found:
        return
    p = chars.like(g, escape, found[0])
    if p is None:
        return
    got = []
    for x in p:
        if isinstance(x, tuple) or not got or isinstance(got[-1], tuple):
            got.append(x)
        else:
            got[-1] = rope(got[-1], x)
    w = [rope(*[x for x in want if not isinstance(x, tuple)]), *[x for x in want if isinstance(x, tuple)]]
    if not g.symbolic and w[0] == "":
        w = w[1:]
    g.ensure_eq("the pattern stands for the text", got, w)
    g.cover("matched")
    return r


class Answering:
    "Answers queries with given names of tables; remembers statements."

    async def query_all(self, signature, statement):
        self.queries.append(statement)
        return self.answer

    async def execute(self, statement):
        self.executed.append(statement)


class MySQLAnswering(Answering, mysql_conn.MySQLContext):
    pass


def schema_pattern(g, queries, ns, reader, excluded=""):
    g.ensure_eq("there is one query", g.length(queries), 1)
    q = g.items(queries)[0]
    return matches(g, q, "~", [ns, "__", ("any",)], reader)


@contract("P02", "mysql_drop_schema", ["pysqlsync/dialect/mysql/connection.py::MySQLContext.drop_schema"], covers=("matched",))
def mysql_drop_schema(g):
    "The tables of the schema are found and dropped."
    ns = g.name_text("ns")
    free_of(g, ns, EXCLUDED["mysql"])
    tables = g.seq("t", lambda p: g.name_text(p))
    ctx = g.obj(MySQLAnswering, queries=g.list_of(), executed=g.list_of(), answer=tables)
    g.method(ctx, "drop_schema", g.new(LocalId, ns))
    schema_pattern(g, ctx.queries, ns, chars.MYSQL)
    if g.truth(g.gt(g.length(tables), 0)):
        g.ensure_eq("one statement", g.length(ctx.executed), 1)
    else:
        g.ensure_eq("no statement", g.length(ctx.executed), 0)


if oracle_conn is not None:
    class OracleAnswering(Answering, oracle_conn.OracleContext):
        pass

    @contract("P02", "oracle_drop_schema", ["pysqlsync/dialect/oracle/connection.py::OracleContext.drop_schema"], covers=("matched",))
    def oracle_drop_schema(g):
        ns = g.name_text("ns")
        tables = g.list_of()
        ctx = g.obj(OracleAnswering, queries=g.list_of(), executed=g.list_of(), answer=tables)
        g.method(ctx, "drop_schema", g.new(LocalId, ns))
        schema_pattern(g, ctx.queries, ns, chars.STANDARD)

    @contract("P02", "oracle_discovery", ["pysqlsync/dialect/oracle/discovery.py::OracleExplorer._get_namespace"], covers=("matched",))
    def oracle_discovery(g):
        ns = g.name_text("ns")
        conn = g.obj(OracleAnswering, queries=g.list_of(), executed=g.list_of(), answer=g.list_of())
        ex = g.obj(oracle_disc.OracleExplorer, conn=conn, factory=g.new(oracle_disc.OracleObjectFactory))
        g.method(ex, "get_namespace", g.new(LocalId, ns))
        schema_pattern(g, conn.queries, ns, chars.STANDARD)


class Generator:
    def get_current_schema_stmt(self):
        return "CURRENT_SCHEMA()"


class Connection:
    def __init__(self):
        self.generator = Generator()


class AnyExplorer(fd.AnsiExplorer):
    async def get_namespace(self, namespace_id):
        return await self.get_namespace_flat(namespace_id)

    async def get_namespace_current(self):
        return await self.get_namespace_flat(None)


def explorer(g):
    conn = g.obj(MySQLAnswering, queries=g.list_of(), executed=g.list_of(), answer=g.list_of(), connection=g.new(Connection))
    return conn, g.obj(AnyExplorer, conn=conn, discovery=None, factory=g.new(ot.ObjectFactory))


@contract("P02", "discovery_flat", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_namespace_flat"], covers=("matched",))
def discovery_flat(g):
    ns = g.name_text("ns")
    conn, ex = explorer(g)
    g.method(ex, "get_namespace_flat", g.new(LocalId, ns))
    schema_pattern(g, conn.queries, ns, chars.STANDARD)


@contract("P02", "discovery_qualified", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_namespace_qualified"], covers=("read",))
def discovery_qualified(g):
    ns = g.name_text("ns")
    conn, ex = explorer(g)
    g.method(ex, "get_namespace_qualified", g.new(LocalId, ns))
    g.ensure_eq("there is one query", g.length(conn.queries), 1)
    r = chars.tokens(g, chars.STANDARD, g.items(conn.queries)[0])
    if r is not None:
        g.ensure_eq("the schema is the one literal", g.list_of(*[x for k, x in r if k == "str"]), g.list_of(ns))
        g.cover("read")


@contract("P02", "discovery_table", ["pysqlsync/formation/discovery.py::AnsiExplorer._where_table"], covers=("read",))
def discovery_table(g):
    conn, ex = explorer(g)
    cls = g.choice("names", [QualifiedId, PrefixedId])
    n = g.new(cls, g.name_text("ns") if g.flag("scoped") else None, g.name_text("n"))
    s = g.method(ex, "_where_table", n, "t")
    r = chars.tokens(g, chars.STANDARD, s)
    if r is not None:
        want = [n.namespace, n.id] if cls is QualifiedId and n.namespace is not None else [g.attr(n, "local_id")]
        g.ensure_eq("the names are the literals", g.list_of(*[x for k, x in r if k == "str"]), g.list_of(*want))
        g.cover("read")


# ---------------------------------------------------------------------- known findings
def reads(dialect, literal):
    try:
        o = chars.run(READERS[dialect], READERS[dialect].start, literal)
    except chars.Unreadable as ex:
        return str(ex)
    if o[0][0] != "quote":
        return "unterminated"
    return "".join(x for x in o[1] if isinstance(x, str))


@finding("P02")
def backslash_in_constant():
    bad = [d for d in ("mysql", "snowflake", "delta") for t in ("a\\", "C:\\new") if reads(d, dt.constant(t)) != t]
    return f"a backslash in a constant is an escape character in {', '.join(sorted(set(bad)))}" if bad else None


@finding("P02")
def delta_quote_in_constant():
    return "a quote in a constant is lost in delta" if reads("delta", dt.constant("it's")) != "it's" else None
