"""P18 SQL types are recognized faithfully and combine without data loss."""
from __future__ import annotations

import functools
import datetime
import importlib
import itertools
import re

from pysqlsync.formation import discovery as fd
from pysqlsync.formation import object_types
from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
from pysqlsync.formation.object_types import ObjectFactory
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import GlobalId, LocalId, PrefixedId, QualifiedId

from pyvc.contract import contract


def module(name, part):
    return importlib.import_module(f"pysqlsync.dialect.{name}.{part}")


mysql, mssql, oracle = (module(n, "data_types") for n in ("mysql", "mssql", "oracle"))
delta, redshift, postgresql, snowflake = (module(n, "data_types") for n in ("delta", "redshift", "postgresql", "snowflake"))

DISCOVERY = "pysqlsync/formation/data_types.py::SqlDiscovery."
TYPES = "pysqlsync/model/data_types.py::"


# ---------------------------------------------------------------------- what a type denotes
def size(g, name):
    return g.int(name, 0, 70000)


def bound(g, name):
    "A limit, or none."
    return g.int(name, 1, 70000) if g.flag(f"{name} given") else None


def attributes(t):
    return {
        dt.SqlIntegerType: ("width", "signed", "minimum", "maximum"), dt.SqlFloatType: ("precision",), dt.SqlDecimalType: ("precision", "scale"),
        dt.SqlTimestampType: ("precision", "with_time_zone"), dt.SqlTimeType: ("precision", "with_time_zone"),
        dt.SqlFixedCharacterType: ("limit",), dt.SqlVariableCharacterType: ("limit",), dt.SqlFixedBinaryType: ("storage",),
        dt.SqlVariableBinaryType: ("storage",), dt.SqlEnumType: ("values",)}.get(next((c for c in t.__mro__ if c.__module__ == dt.__name__), t), ())


def same_type(g, what, t, cls, **values):
    "The type is of the class, with the values given; every other attribute is as when nothing is known."
    g.ensure(f"{what}: {cls.__name__}", type(t) is cls or g.call(type, t) is cls, t)
    blank = {"signed": True, "with_time_zone": False}
    for a in attributes(cls):
        g.ensure_eq(f"{what}: {a}", g.attr(t, a), values.get(a, blank.get(a)))


# ---------------------------------------------------------------------- definitions
# a definition, made of text and of the names of numbers → the class, attributes
def definitions():
    yield ("decimal(", "p", ",", "s", ")"), dt.SqlDecimalType, dict(precision="p", scale="s")
    yield ("decimal(", "p", ", ", "s", ")"), dt.SqlDecimalType, dict(precision="p", scale="s")
    yield ("numeric(", "p", ",", "s", ")"), dt.SqlDecimalType, dict(precision="p", scale="s")
    yield ("number(", "p", ",", "s", ")"), dt.SqlDecimalType, dict(precision="p", scale="s")
    for n, c in ("timestamp", dt.SqlTimestampType), ("time", dt.SqlTimeType):
        yield (f"{n}(", "p", ")"), c, dict(precision="p")
        yield (f"{n}(", "p", ") without time zone"), c, dict(precision="p")
        yield (f"{n}(", "p", ") with time zone"), c, dict(precision="p", with_time_zone=True)
    for n in "char", "character":
        yield (f"{n}(", "p", ")"), dt.SqlFixedCharacterType, dict(limit="p")
    for n in "varchar", "character varying":
        yield (f"{n}(", "p", ")"), dt.SqlVariableCharacterType, dict(limit="p")
    yield ("binary(", "p", ")"), dt.SqlFixedBinaryType, dict(storage="p")
    for n in "varbinary", "binary varying":
        yield (f"{n}(", "p", ")"), dt.SqlVariableBinaryType, dict(storage="p")


def concat(parts):
    return "".join(parts)


def text_of(g, parts, numbers, case=str):
    return g.call(concat, [g.str(numbers[p]) if p in numbers else case(p) for p in parts])


@contract("P18", "definition", [DISCOVERY + "sql_data_type_from_def"], covers=("recognized",), samples=1200)
def definition(g):
    "Every definition with every number, in any case."
    parts, cls, attrs = g.choice("form", list(definitions()))
    numbers = {n: size(g, n) for n in ("p", "s") if n in parts}
    case = g.choice("case", ["lower", "upper", "title"])
    r = g.method(g.new(SqlDiscovery), "sql_data_type_from_def", text_of(g, parts, numbers, getattr(str, case)))
    g.ensure("the definition is recognized", not g.is_none(r), r)
    same_type(g, "as defined", r, cls, **{k: numbers.get(v, v) if isinstance(v, str) else v for k, v in attrs.items()})
    g.cover("recognized")


ENUM = ["", "a", "'", "''", ",", "','", "b c", "(", ")", "\\", "\\'", "é", "a,b", "'a", "a'", "x\ny", "\\n", "\0", "\r", "0", "`", '"', "A"]


def escaped(value):
    "As the catalog of MySQL prints a value of an enumeration."
    return "".join({"\0": "\\0", "\n": "\\n", "\r": "\\r", "\\": "\\\\", "'": "''"}.get(c, c) for c in value)


@contract("P18", "enumeration", [DISCOVERY + "sql_data_type_from_def"], covers=("recognized",), samples=3000,
          bounded="lists of one to four values, of up to six characters or characteristic ones: a search of a list of texts runs natively")
def enumeration(g):
    if g.symbolic:
        g.unsupported("findall over texts of any number of values")
    char = lambda: g.rng.choice("ab',()\\ \n0\"`nÉ%")
    value = lambda: g.rng.choice(ENUM) if g.rng.random() < 0.5 else "".join(char() for _ in range(g.rng.randint(0, 6)))
    values = g.note("values", [value() for _ in range(g.rng.randint(1, 4))])
    text = g.rng.choice(["enum", "ENUM", "Enum"]) + "(" + ",".join(f"'{escaped(v)}'" for v in values) + ")"
    r = SqlDiscovery().sql_data_type_from_def(text)
    g.ensure("an enumeration", isinstance(r, dt.SqlEnumType), r)
    g.ensure_eq("the values, in order", r.values, values)
    g.cover("recognized")


# ---------------------------------------------------------------------- names
NAMES = {
    (dt.SqlBooleanType, ()): "bool boolean",
    (dt.SqlIntegerType, (("width", 1),)): "tinyint tinyint(1) int1",
    (dt.SqlIntegerType, (("width", 2),)): "smallint int2",
    (dt.SqlIntegerType, (("width", 4),)): "integer int int4",
    (dt.SqlIntegerType, (("width", 8),)): "bigint int8",
    (dt.SqlDecimalType, ()): "decimal number numeric",
    (dt.SqlRealType, ()): "real float4",
    (dt.SqlDoubleType, ()): "double double_precision float8",
    (dt.SqlFloatType, ()): "float",
    (dt.SqlTimestampType, ()): "timestamp timestamp_without_time_zone datetime",
    (dt.SqlTimestampType, (("with_time_zone", True),)): "timestamp_with_time_zone timestamptz",
    (dt.SqlDateType, ()): "date",
    (dt.SqlTimeType, ()): "time time_without_time_zone",
    (dt.SqlTimeType, (("with_time_zone", True),)): "time_with_time_zone timetz",
    (dt.SqlIntervalType, ()): "interval",
    (dt.SqlFixedCharacterType, ()): "char character",
    (dt.SqlVariableCharacterType, ()): "varchar character_varying text",
    (dt.SqlFixedBinaryType, ()): "binary",
    (dt.SqlVariableBinaryType, ()): "varbinary binary_varying bytea",
    (dt.SqlJsonType, ()): "json jsonb",
    (dt.SqlUuidType, ()): "uuid",
}
BY_NAME = [(n.replace("_", " "), cls, dict(attrs)) for (cls, attrs), names in NAMES.items() for n in names.split()]


@contract("P18", "name", [DISCOVERY + "sql_data_type_from_name"], covers=("built-in", "user-defined", "unknown"), samples=800)
def name(g):
    "Every name of a built-in type, in any case; the name of a type of a user, in its namespace."
    d = g.new(SqlDiscovery)
    if g.choice("kind", ["built-in", "other"]) == "built-in":
        n, cls, attrs = g.choice("name", BY_NAME)
        case = g.choice("case", ["lower", "upper", "title"])
        r = g.method(d, "sql_data_type_from_name", getattr(str, case)(n), g.choice("namespace", [None, "pg_catalog"]))
        g.ensure("the name is recognized", not g.is_none(r), r)
        same_type(g, "as named", r, cls, **attrs)
        g.cover("built-in")
        return
    # a name that could not be mistaken for one of a built-in type
    n = g.choice("other", ["color", "Étage", "my type", "int_", "texts", "a.b"])
    if g.flag("in a namespace"):
        s = g.name_text("namespace")
        r = g.method(d, "sql_data_type_from_name", n, s)
        g.ensure("a type of a user", g.isinstance(r, dt.SqlUserDefinedType), r)
        g.ensure_eq("its namespace", g.attr(r.ref, "scope_id"), s)
        g.ensure_eq("its name, as written", g.attr(r.ref, "local_id"), n)
        g.cover("user-defined")
    else:
        g.ensure("not recognized", g.is_none(g.method(d, "sql_data_type_from_name", n, None)))
        g.cover("unknown")


# ---------------------------------------------------------------------- columns of a catalog
ANSI = ("character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision")


def plain_rows(g, p):
    "Rows of an information schema that has no definitions, and what they denote: every type that has attributes, and others."
    n = lambda k: g.int(f"{p}.{k}", 1, 70000)
    yield "integer", lambda: (dict(data_type="integer", numeric_precision=32, numeric_scale=0), dt.SqlIntegerType, dict(width=4))
    yield "bigint", lambda: (dict(data_type="bigint", numeric_precision=64, numeric_scale=0), dt.SqlIntegerType, dict(width=8))
    yield "double", lambda: (dict(data_type="double precision", numeric_precision=53), dt.SqlDoubleType, {})
    yield "real", lambda: (dict(data_type="real", numeric_precision=24), dt.SqlRealType, {})
    yield "date", lambda: (dict(data_type="date", datetime_precision=0), dt.SqlDateType, {})
    yield "float", lambda: (lambda k: (dict(data_type="float", numeric_precision=k), dt.SqlFloatType, dict(precision=k)))(n("p"))
    yield "decimal", lambda: (lambda k, s: (dict(data_type="decimal", numeric_precision=k, numeric_scale=s), dt.SqlDecimalType, dict(precision=k, scale=s)))(
        n("p"), g.int(f"{p}.s", 0, 30))
    yield "decimal, unlimited", lambda: (dict(data_type="numeric"), dt.SqlDecimalType, {})
    yield "time", lambda: (lambda k: (dict(data_type="time", datetime_precision=k), dt.SqlTimeType, dict(precision=k)))(n("p"))
    yield "char", lambda: (lambda k: (dict(data_type="char", character_maximum_length=k), dt.SqlFixedCharacterType, dict(limit=k)))(n("p"))
    yield "binary", lambda: (lambda k: (dict(data_type="binary", character_maximum_length=k), dt.SqlFixedBinaryType, dict(storage=k)))(n("p"))
    yield "varbinary", lambda: (lambda k: (dict(data_type="varbinary", character_maximum_length=k), dt.SqlVariableBinaryType, dict(storage=k)))(n("p"))
    yield "varbinary, unlimited", lambda: (dict(data_type="varbinary", character_maximum_length=-1), dt.SqlVariableBinaryType, {})


def ansi_rows(g, p):
    n = lambda k: g.int(f"{p}.{k}", 1, 70000)
    yield from plain_rows(g, p)
    yield "varchar", lambda: (lambda k: (dict(data_type="varchar", character_maximum_length=k), dt.SqlVariableCharacterType, dict(limit=k)))(n("p"))
    yield "varchar, unlimited", lambda: (dict(data_type="character varying"), dt.SqlVariableCharacterType, {})
    for tz in (False, True):
        yield f"timestamp, {tz}", lambda tz=tz: (lambda k: (
            dict(data_type="timestamp with time zone" if tz else "timestamp without time zone", datetime_precision=k), dt.SqlTimestampType,
            dict(precision=k, with_time_zone=tz)))(n("p"))
    yield "boolean", lambda: (dict(data_type="boolean"), dt.SqlBooleanType, {})


def mssql_rows(g, p):
    n = lambda k: g.int(f"{p}.{k}", 1, 70000)
    U = mssql.MSSQLEncoding.UTF16
    V = mssql.MSSQLVariableCharacterType
    yield from plain_rows(g, p)
    yield "bit", lambda: (dict(data_type="bit"), mssql.MSSQLBooleanType, {})
    yield "varchar", lambda: (lambda k: (dict(data_type="varchar", character_maximum_length=k), V, dict(limit=k, encoding=None)))(n("p"))
    yield "varchar, unlimited", lambda: (dict(data_type="varchar", character_maximum_length=-1), V, dict(encoding=None))
    yield "nvarchar", lambda: (lambda k: (dict(data_type="nvarchar", character_maximum_length=k), V, dict(limit=k, encoding=U)))(n("p"))
    yield "nvarchar, unlimited", lambda: (dict(data_type="nvarchar", character_maximum_length=-1), V, dict(encoding=U))
    yield "datetime2", lambda: (dict(data_type="datetime2", datetime_precision=7), mssql.MSSQLDateTimeType, dict(precision=7))
    yield "datetime", lambda: (dict(data_type="datetime", datetime_precision=3), mssql.MSSQLDateTimeType, dict(precision=3))
    yield "text", lambda: (dict(data_type="text", character_maximum_length=2147483647), V, dict(limit=2147483647, encoding=None))


def mysql_rows(g, p):
    n = lambda k, hi=65535: g.int(f"{p}.{k}", 1, hi)
    V, B = mysql.MySQLVariableCharacterType, mysql.MySQLVariableBinaryType

    def sized(name, t, attr, **more):
        k = n("p")
        return dict(data_type=name, column_type=text_of(g, (f"{name}(", "p", ")"), {"p": k}), **{more["length"]: k}), t, {attr: k}

    for name, w in ("tinyint", 1), ("smallint", 2), ("int", 4), ("bigint", 8):
        yield name, lambda name=name, w=w: (dict(data_type=name, column_type=name, numeric_precision=10, numeric_scale=0), dt.SqlIntegerType, dict(width=w))
    yield "tinyint(1)", lambda: (dict(data_type="tinyint", column_type="tinyint(1)", numeric_precision=3, numeric_scale=0), dt.SqlIntegerType, dict(width=1))
    yield "double", lambda: (dict(data_type="double", column_type="double", numeric_precision=22), dt.SqlDoubleType, {})
    yield "date", lambda: (dict(data_type="date", column_type="date"), dt.SqlDateType, {})
    yield "json", lambda: (dict(data_type="json", column_type="json"), dt.SqlJsonType, {})

    def decimals():
        k, s = n("p", 65), g.int(f"{p}.s", 0, 30)
        return (dict(data_type="decimal", column_type=text_of(g, ("decimal(", "p", ",", "s", ")"), {"p": k, "s": s}), numeric_precision=k, numeric_scale=s),
                dt.SqlDecimalType, dict(precision=k, scale=s))
    yield "decimal", decimals
    yield "datetime", lambda: (dict(data_type="datetime", column_type="datetime", datetime_precision=0), mysql.MySQLDateTimeType, {})
    yield "datetime(p)", lambda: sized("datetime", mysql.MySQLDateTimeType, "precision", length="datetime_precision")
    yield "time(p)", lambda: sized("time", dt.SqlTimeType, "precision", length="datetime_precision")
    yield "timestamp(p)", lambda: sized("timestamp", dt.SqlTimestampType, "precision", length="datetime_precision")
    yield "char(p)", lambda: sized("char", dt.SqlFixedCharacterType, "limit", length="character_maximum_length")
    yield "varchar(p)", lambda: sized("varchar", V, "limit", length="character_maximum_length")
    yield "binary(p)", lambda: sized("binary", dt.SqlFixedBinaryType, "storage", length="character_maximum_length")
    yield "varbinary(p)", lambda: sized("varbinary", B, "storage", length="character_maximum_length")
    for k, w in (("tiny", 255), ("", 65535), ("medium", 16777215), ("long", 4294967295)):
        yield f"{k}text", lambda k=k, w=w: (dict(data_type=f"{k}text", column_type=f"{k}text", character_maximum_length=w), V, dict(limit=w))
        yield f"{k}blob", lambda k=k, w=w: (dict(data_type=f"{k}blob", column_type=f"{k}blob", character_maximum_length=w), B, dict(storage=w))
    yield "enum", lambda: (dict(data_type="enum", column_type="enum('a','b''c','')", character_maximum_length=3), dt.SqlEnumType, dict(values=["a", "b'c", ""]))


def oracle_rows(g, p):
    n = lambda k, hi=4000: g.int(f"{p}.{k}", 1, hi)
    V, B = oracle.OracleVariableCharacterType, oracle.OracleVariableBinaryType
    T = oracle.OracleTimestampType
    yield "number", lambda: (dict(data_type="NUMBER", data_length=22), oracle.OracleIntegerType, dict(width=8))

    def decimals():
        k, s = n("p", 38), g.int(f"{p}.s", 0, 38)
        return dict(data_type="NUMBER", data_length=22, data_precision=k, data_scale=s), dt.SqlDecimalType, dict(precision=k, scale=s)
    yield "number(p,s)", decimals
    yield "float", lambda: (lambda k: (dict(data_type="FLOAT", data_length=22, data_precision=k), dt.SqlFloatType, dict(precision=k)))(n("p", 126))
    yield "varchar2", lambda: (lambda k, b: (dict(data_type="VARCHAR2", data_length=b, char_length=k), V, dict(limit=k)))(n("p"), n("b"))
    yield "char", lambda: (lambda k, b: (dict(data_type="CHAR", data_length=b, char_length=k), dt.SqlFixedCharacterType, dict(limit=k)))(n("p"), n("b"))
    yield "raw", lambda: (lambda k: (dict(data_type="RAW", data_length=k, char_length=0), B, dict(storage=k)))(n("p"))
    yield "long", lambda: (dict(data_type="LONG", data_length=0, char_length=0), V, {})
    yield "clob", lambda: (dict(data_type="CLOB", data_length=4000, char_length=0), V, {})
    yield "blob", lambda: (dict(data_type="BLOB", data_length=4000, char_length=0), B, {})
    yield "date", lambda: (dict(data_type="DATE", data_length=7), dt.SqlDateType, {})

    def timestamps(tz):
        k = n("p", 9)
        g.assume(g.Not(g.eq(k, 6)))
        text = text_of(g, ("TIMESTAMP(", "p", ") WITH TIME ZONE" if tz else ")"), {"p": k})
        return dict(data_type=text, data_length=11, data_scale=k), T, dict(precision=k, with_time_zone=tz)
    for tz in (False, True):
        yield f"timestamp, {tz}", lambda tz=tz: timestamps(tz)
        # the precision that a timestamp has if none is given
        yield f"timestamp(6), {tz}", lambda tz=tz: (dict(data_type="TIMESTAMP(6) WITH TIME ZONE" if tz else "TIMESTAMP(6)", data_length=11, data_scale=6), T,
                                                    dict(with_time_zone=tz))
    yield "interval", lambda: (dict(data_type="INTERVAL DAY(2) TO SECOND(6)", data_length=11, data_precision=2, data_scale=6), oracle.OracleTimeType, {})


def postgresql_rows(g, p):
    n = lambda k: g.int(f"{p}.{k}", 1, 70000)
    for name, text, cls, attrs in (
            ("bool", "boolean", dt.SqlBooleanType, {}), ("int2", "smallint", dt.SqlIntegerType, dict(width=2)),
            ("int4", "integer", dt.SqlIntegerType, dict(width=4)), ("int8", "bigint", dt.SqlIntegerType, dict(width=8)),
            ("float4", "real", dt.SqlRealType, {}), ("float8", "double precision", dt.SqlDoubleType, {}), ("numeric", "numeric", dt.SqlDecimalType, {}),
            ("date", "date", dt.SqlDateType, {}), ("text", "text", dt.SqlVariableCharacterType, {}), ("bytea", "bytea", dt.SqlVariableBinaryType, {}),
            ("varchar", "character varying", dt.SqlVariableCharacterType, {}), ("uuid", "uuid", dt.SqlUuidType, {}),
            ("json", "json", dt.SqlJsonType, {}), ("jsonb", "jsonb", postgresql.PostgreSQLJsonType, {}), ("interval", "interval", dt.SqlIntervalType, {}),
            ("timestamp", "timestamp without time zone", dt.SqlTimestampType, {}), ("time", "time without time zone", dt.SqlTimeType, {}),
            ("timestamptz", "timestamp with time zone", dt.SqlTimestampType, dict(with_time_zone=True)),
            ("timetz", "time with time zone", dt.SqlTimeType, dict(with_time_zone=True))):
        yield text, lambda name=name, text=text, cls=cls, attrs=attrs: (dict(type_name=name, type_def=text), cls, attrs)

    def sized(name, parts, cls, attr, **more):
        k = n("p")
        return dict(type_name=name, type_def=text_of(g, parts, {"p": k})), cls, {attr: k, **more}
    for name, parts, cls, attr, more in (
            ("varchar", ("character varying(", "p", ")"), dt.SqlVariableCharacterType, "limit", {}),
            ("bpchar", ("character(", "p", ")"), dt.SqlFixedCharacterType, "limit", {}),
            ("timestamp", ("timestamp(", "p", ") without time zone"), dt.SqlTimestampType, "precision", {}),
            ("timestamptz", ("timestamp(", "p", ") with time zone"), dt.SqlTimestampType, "precision", dict(with_time_zone=True)),
            ("time", ("time(", "p", ") without time zone"), dt.SqlTimeType, "precision", {}),
            ("timetz", ("time(", "p", ") with time zone"), dt.SqlTimeType, "precision", dict(with_time_zone=True))):
        yield parts[0] + parts[2], lambda name=name, parts=parts, cls=cls, attr=attr, more=more: sized(name, parts, cls, attr, **more)

    def decimals():
        k, s = n("p"), n("s")
        return dict(type_name="numeric", type_def=text_of(g, ("numeric(", "p", ",", "s", ")"), {"p": k, "s": s})), dt.SqlDecimalType, dict(precision=k, scale=s)
    yield "numeric(p,s)", decimals


class AnyExplorer(fd.AnsiExplorer):
    async def get_namespace(self, namespace_id):
        raise NotImplementedError

    async def get_namespace_current(self):
        raise NotImplementedError


class Connection:
    "Stands for a connection, and for the generator of its dialect: each query is answered by the rows for the class of its records."

    def __init__(self, answers):
        self.answers = answers
        self.connection = self
        self.generator = self

    def get_current_schema_stmt(self):
        return "CURRENT_SCHEMA()"

    async def query_all(self, signature, statement):
        return self.answers.get(signature, [])

    async def query_one(self, signature, statement):
        return self.answers.get(signature)


def record(g, cls, **values):
    import dataclasses

    blank = {f.name: None for f in dataclasses.fields(cls)}
    return g.obj(cls, **{**blank, **values}) if g.symbolic else cls(**{**blank, **values})


def rows_of(g, rows, first, second=None):
    "A row of one kind, then another row, of the same kind or of any."
    out = []
    for p, kind in (("a", first), ("b", second or first)):
        out.append(dict(rows(g, p))[kind]())
    return out


def columns_contract(g, dialect, rows, build, covers=("recognized",)):
    kinds = [k for k, _ in rows(g, "a")]
    first = g.choice("type", kinds)
    # natively, of any type; the proof takes the next one in turn, for a type is the same whatever came before it
    other = g.choice("then", ["same", "other"])
    second = first if other == "same" else (g.rng.choice(kinds) if not g.symbolic else kinds[(kinds.index(first) + 1) % len(kinds)])
    found = rows_of(g, rows, first, second)
    names = ["first", "second"]
    columns = build(g, found, names)
    g.ensure_eq("a column for each row", len(columns), len(names))
    for (r, cls, attrs), column, n in zip(found, columns, names):
        g.ensure_eq("a column for each row, in order", g.attr(g.attr(column, "name"), "local_id"), n)
        t = g.attr(column, "data_type")
        same_type(g, f"{n}: as stored", t, cls, **{k: v for k, v in attrs.items() if k != "encoding"})
        if "encoding" in attrs:
            g.ensure_eq("its encoding", g.attr(t, "encoding"), attrs["encoding"])
    g.cover("recognized")


def ansi_build(explorer):
    def build(g, found, names):
        rows = [record(g, fd.AnsiColumnMeta, column_name=n, nullable=1, **r) for n, (r, _, _) in zip(names, found)]
        conn = g.new(Connection, {fd.AnsiColumnMeta: rows, int: 4})
        return g.items(g.method(explorer(g, conn), "get_columns", g.new(QualifiedId, "s", "t")))
    return build


def own(module_name, cls):
    return lambda g, conn: g.new(getattr(module(module_name, "discovery"), cls), conn)


def mysql_build(g, found, names):
    M = module("mysql", "discovery")
    rows = [record(g, M.MySQLColumnMeta, column_name=n, nullable=1, extra="", **r) for n, (r, _, _) in zip(names, found)]
    conn = g.new(Connection, {M.MySQLColumnMeta: rows})
    return g.items(g.method(g.new(M.MySQLExplorer, conn), "get_columns", g.new(QualifiedId, "s", "t")))


def columns_of(g, table, names):
    return [g.method(g.attr(table, "columns"), "__getitem__", n) for n in names]


def oracle_build(g, found, names):
    M = module("oracle", "discovery")
    rows = [record(g, M.OracleColumnMeta, column_name=n, is_nullable=1, is_identity=0, **r) for n, (r, _, _) in zip(names, found)]
    key = record(g, M.OracleConstraintMeta, constraint_type="P", constraint_name="k", source_column="first")
    conn = g.new(Connection, {str: [], M.OracleColumnMeta: rows, M.OracleConstraintMeta: [key]})
    return columns_of(g, g.method(g.new(M.OracleExplorer, conn), "get_table", g.new(PrefixedId, None, "t")), names)


def postgresql_build(g, found, names):
    M = module("postgresql", "discovery")
    as_array = g.flag("arrays")
    as_struct = g.flag("of a structure")
    values = []
    for n, (r, _, _) in zip(names, found):
        v = dict(r, type_schema="pg_catalog", is_array=as_array)
        if as_array:
            v["type_def"] = g.call(concat, [v["type_def"], "[]"])
        values.append((n, v))
    if as_struct:
        rows = [record(g, M.PostgreSQLMemberMeta, member_name=n, **v) for n, v in values]
        conn = g.new(Connection, {M.PostgreSQLStructMeta: record(g, M.PostgreSQLStructMeta), M.PostgreSQLMemberMeta: rows})
        table = g.method(g.new(M.PostgreSQLExplorer, conn), "get_struct", g.new(QualifiedId, "s", "t"))
        found = [g.method(g.attr(table, "members"), "__getitem__", n) for n in names]
    else:
        rows = [record(g, M.PostgreSQLColumnMeta, column_name=n, is_nullable=True, is_identity=False, **v) for n, v in values]
        key = record(g, M.PostgreSQLConstraintMeta, constraint_type=b"p", constraint_name="k", source_column="first")
        conn = g.new(Connection, {M.PostgreSQLTableMeta: record(g, M.PostgreSQLTableMeta), M.PostgreSQLColumnMeta: rows, M.PostgreSQLConstraintMeta: [key]})
        table = g.method(g.new(M.PostgreSQLExplorer, conn), "get_table", g.new(QualifiedId, "s", "t"))
        found = columns_of(g, table, names)
    if as_array:
        for c in found:
            g.ensure("an array", g.isinstance(g.attr(c, "data_type"), dt.SqlArrayType), c)
        return [Element(c.name, g.attr(g.attr(c, "data_type"), "element_type")) for c in found]
    return found


class Element:
    def __init__(self, name, data_type):
        self.name = name
        self.data_type = data_type


SPEC = [DISCOVERY + n for n in ("sql_data_type_from_spec", "sql_data_type_from_def", "sql_data_type_from_name")]
for _n, _rows, _build, _f in (
        ("ansi", ansi_rows, ansi_build(lambda g, conn: g.new(AnyExplorer, conn, g.new(SqlDiscovery), g.new(ObjectFactory))),
         ["pysqlsync/formation/discovery.py::AnsiExplorer._get_columns_full"]),
        ("mssql", mssql_rows, ansi_build(own("mssql", "MSSQLExplorer")), ["pysqlsync/dialect/mssql/discovery.py::MSSQLExplorer.get_columns"]),
        ("mysql", mysql_rows, mysql_build, ["pysqlsync/dialect/mysql/discovery.py::MySQLExplorer.get_columns"]),
        ("oracle", oracle_rows, oracle_build, ["pysqlsync/dialect/oracle/discovery.py::OracleExplorer.get_table"]),
        ("postgresql", postgresql_rows, postgresql_build,
         ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_table", "pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_struct"])):
    contract("P18", f"columns_{_n}", [*_f, *SPEC], covers=("recognized",), samples=600)(lambda g, n=_n, r=_rows, b=_build: columns_contract(g, n, r, b))


# ---------------------------------------------------------------------- common types
class Vocabulary:
    "The classes of types that a dialect makes of the types of fields."

    def __init__(self, name, **classes):
        self.name = name
        self.integer = classes.get("integer", dt.SqlIntegerType)
        self.real, self.double = classes.get("real", dt.SqlRealType), classes.get("double", dt.SqlDoubleType)
        self.char, self.varchar = classes.get("char", dt.SqlFixedCharacterType), classes.get("varchar", dt.SqlVariableCharacterType)
        self.binary, self.varbinary = classes.get("binary", dt.SqlFixedBinaryType), classes.get("varbinary", dt.SqlVariableBinaryType)
        self.timestamp = classes.get("timestamp", dt.SqlTimestampType)


VOCABULARIES = [
    Vocabulary("standard"),
    Vocabulary("mysql", varchar=mysql.MySQLVariableCharacterType, varbinary=mysql.MySQLVariableBinaryType, timestamp=mysql.MySQLDateTimeType),
    Vocabulary("oracle", integer=oracle.OracleIntegerType, varchar=oracle.OracleVariableCharacterType, varbinary=oracle.OracleVariableBinaryType,
               timestamp=oracle.OracleTimestampType),
    Vocabulary("mssql", varchar=mssql.MSSQLVariableCharacterType, timestamp=mssql.MSSQLDateTimeType),
    Vocabulary("delta", real=delta.DeltaRealType, double=delta.DeltaDoubleType, varchar=delta.DeltaVariableCharacterType, binary=delta.DeltaFixedBinaryType,
               varbinary=delta.DeltaVariableBinaryType, timestamp=delta.DeltaTimestampType),
    Vocabulary("redshift", varbinary=redshift.RedshiftVariableBinaryType),
    Vocabulary("snowflake", timestamp=snowflake.SnowflakeDateTimeType),
]
FAMILIES = {"integer": ["integer"], "float": ["real", "double"], "character": ["char", "varchar"], "binary": ["binary", "varbinary"]}


def member(g, v, kind, p):
    "Any type of a kind."
    if kind == "integer":
        t = g.new(v.integer) if v.integer is not dt.SqlIntegerType else g.new(v.integer, g.choice(f"{p} width", [1, 2, 4, 8]))
        set_ = (lambda n, x: setattr(t, n, x)) if not g.symbolic else (lambda n, x: g.e.setattr(t, n, x))
        set_("signed", g.choice(f"{p} signed", [True, False]))
        if g.choice(f"{p} range", ["all", "some"]) == "some":
            set_("minimum", limit(g, f"{p}.minimum", -300, 300))
            set_("maximum", limit(g, f"{p}.maximum", -300, 300))
        return t
    if kind in ("real", "double"):
        return g.new(getattr(v, kind))
    return g.new(getattr(v, kind), limit(g, f"{p}.limit", 0, 100000))


def limit(g, name, lo, hi):
    return g.int(name, lo, hi) if g.choice(f"{name} given", [True, False]) else None


def single(g, v, p):
    "A type that is in no family."
    k = g.choice(f"{p} other", ["boolean", "date", "time", "timestamp", "uuid", "json", "decimal", "interval", "enum", "array", "user"])
    make = {"boolean": dt.SqlBooleanType, "date": dt.SqlDateType, "time": dt.SqlTimeType, "timestamp": v.timestamp, "uuid": dt.SqlUuidType,
            "json": dt.SqlJsonType, "decimal": dt.SqlDecimalType, "interval": dt.SqlIntervalType,
            "enum": lambda: dt.SqlEnumType(["a", "b"]), "array": lambda: dt.SqlArrayType(dt.SqlDateType()),
            "user": lambda: dt.SqlUserDefinedType(GlobalId("inet"))}[k]
    return k, make()


def range_of(g, t):
    "The least and the greatest value."
    w, signed = g.attr(t, "width"), g.attr(t, "signed")
    bits = 8 * w
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    m, n = g.attr(t, "minimum"), g.attr(t, "maximum")
    return lo, hi, m, n


def at_most(g, a, b):
    return g.Not(g.gt(a, b))


def holds(g, what, r, t, v, family):
    "Each value of the type t is one of the type r."
    if family == "integer":
        g.ensure(f"{what}: an integer", g.isinstance(r, dt.SqlIntegerType), r)
        (lo, hi, m, n), (lo2, hi2, m2, n2) = range_of(g, r), range_of(g, t)
        g.ensure(f"{what}: wide enough", lo <= lo2 and hi2 <= hi, (r, t))
        if not g.is_none(m):
            g.ensure(f"{what}: nothing below the range", not g.is_none(m2) and at_most(g, m, m2), (r, t))
        if not g.is_none(n):
            g.ensure(f"{what}: nothing above the range", not g.is_none(n2) and at_most(g, n2, n), (r, t))
        return
    if family == "float":
        g.ensure(f"{what}: as precise", g.Or(g.isinstance(r, v.double), g.isinstance(t, v.real)), (r, t))
        return
    fixed, varying, attr = (dt.SqlFixedCharacterType, dt.SqlVariableCharacterType, "limit") if family == "character" else (
        dt.SqlFixedBinaryType, dt.SqlVariableBinaryType, "storage")
    g.ensure(f"{what}: of any length", g.Or(g.isinstance(r, varying), g.isinstance(t, fixed)), (r, t))
    n, k = g.attr(r, attr), g.attr(t, attr)
    if not g.is_none(n):
        g.ensure(f"{what}: as long", not g.is_none(k) and at_most(g, k, n), (r, t))


def too_wide(g, *ts):
    "Integers of which some have a sign and some need all the bits of the widest type."
    return any(g.attr(t, "signed") for t in ts) and any(not g.attr(t, "signed") and g.attr(t, "width") == 8 for t in ts)


def denotes_same(g, what, a, b):
    g.ensure(f"{what}: the same class", g.call(type, a) is g.call(type, b), (a, b))
    for n in attributes(g.call(type, a)):
        g.ensure_eq(f"{what}: the same {n}", g.attr(a, n), g.attr(b, n))


def combine(g, *ts):
    return g.outcome(dt.compatible_type, None, g.list_of(*ts))


COMPATIBLE = [TYPES + "compatible_type", TYPES + "_compatible_type", TYPES + "max_or_none"]


@contract("P18", "common_type", COMPATIBLE, covers=("combined", "too wide"), samples=2000, paths=60000)
def common_type(g):
    "Two types of a family: their common type can hold the values of each, whichever comes first."
    v = g.choice("dialect", VOCABULARIES)
    family = g.choice("family", list(FAMILIES))
    a, b = (member(g, v, g.choice(f"{p} kind", FAMILIES[family]), p) for p in "ab")
    before = [[(n, g.attr(t, n)) for n in attributes(g.call(type, t))] for t in (a, b)]
    r, s = combine(g, a, b), combine(g, b, a)
    for t, values in zip((a, b), before):
        for n, x in values:
            g.ensure_eq(f"the types combined are left as they are: {n}", g.attr(t, n), x)
    if family == "integer" and too_wide(g, a, b):
        g.ensure("no type holds both", r.raised and isinstance(r.value, dt.CompatibilityError), r)
        g.ensure("no type holds both, in reverse", s.raised and isinstance(s.value, dt.CompatibilityError), s)
        g.cover("too wide")
        return
    g.ensure("types of a family have a common type", not r.raised and not s.raised, (r, s))
    if r.raised or s.raised:
        return
    holds(g, "values of the first", r.value, a, v, family)
    holds(g, "values of the second", r.value, b, v, family)
    denotes_same(g, "in reverse", r.value, s.value)
    g.cover("combined")


@contract("P18", "grouping", COMPATIBLE, covers=("combined",), samples=2000, paths=60000)
def grouping(g):
    "Three types of a family: the common type does not depend on how they are grouped, and holds the values of each."
    family = g.choice("family", list(FAMILIES))
    v = g.choice("dialect", VOCABULARIES[:1] if g.symbolic else VOCABULARIES)
    if g.symbolic and family == "integer":
        # widths and signs, then ranges
        what = g.choice("integers", ["widths", "ranges"])
        kinds = [(w, s) for w in (1, 2, 4, 8) for s in (True, False)]
        ts = []
        for p in "abc":
            w, s = g.choice(f"{p} integer", kinds) if what == "widths" else (4, True)
            args = [] if what == "widths" else [limit(g, f"{p}.minimum", -300, 300), limit(g, f"{p}.maximum", -300, 300)]
            ts.append(g.new(v.integer, w, s, *args))
        a, b, c = ts
    else:
        a, b, c = (member(g, v, g.choice(f"{p} kind", FAMILIES[family]), p) for p in "abc")
    whole = combine(g, a, b, c)
    left = combine(g, a, b)
    if not left.raised:
        left = combine(g, left.value, c)
    right = combine(g, b, c)
    if not right.raised:
        right = combine(g, a, right.value)
    g.ensure("refused in any grouping, or in none", whole.raised == left.raised == right.raised, (whole, left, right))
    if whole.raised or left.raised or right.raised:
        return
    denotes_same(g, "the first two first", whole.value, left.value)
    denotes_same(g, "the last two first", whole.value, right.value)
    for n, t in zip(("first", "second", "third"), (a, b, c)):
        holds(g, f"values of the {n}", whole.value, t, v, family)
    g.cover("combined")


@contract("P18", "families", COMPATIBLE, covers=("refused", "alike"), samples=1500, paths=60000)
def families(g):
    "Types of different families have no common type; a type has itself."
    v = g.choice("dialect", VOCABULARIES)
    names = [*FAMILIES, "other"]
    fa, fb = g.choice("family", names), g.choice("other family", names)
    if fa == fb != "other":
        a = member(g, v, g.choice("kind", FAMILIES[fa]), "a")
        r = combine(g, a)
        g.ensure("a type alone is its own common type", not r.raised and r.value is a, r)
        return
    (ka, a), (kb, b) = (single(g, v, p) if f == "other" else (f, member(g, v, FAMILIES[f][0], p)) for p, f in (("a", fa), ("b", fb)))
    r = combine(g, a, b)
    if ka == kb:
        g.ensure("a type is compatible with itself", not r.raised, r)
        if not r.raised:
            denotes_same(g, "itself", r.value, a)
        g.cover("alike")
    else:
        g.ensure("refused", r.raised and isinstance(r.value, dt.CompatibilityError), r)
        g.cover("refused")


# ---------------------------------------------------------------------- types of drivers
@contract("P18", "odbc_type", ["pysqlsync/dialect/mssql/data_types.py::sql_to_odbc_type"], covers=("mapped",), samples=400)
def odbc_type(g):
    "The type that the driver is told for a parameter has room for each value of the column."
    import pyodbc

    k = g.choice("kind", ["bit", 1, 2, 4, 8, "real", "double", "float", "decimal", "timestamp", "date", "time", "char", "varchar", "binary", "varbinary"])
    n = limit(g, "n", 1, 8000)
    m = limit(g, "m", 0, 30)
    if isinstance(k, int):
        t = g.new(dt.SqlIntegerType, k)
        want = {1: pyodbc.SQL_TINYINT, 2: pyodbc.SQL_SMALLINT, 4: pyodbc.SQL_INTEGER, 8: pyodbc.SQL_BIGINT}[k]
        size_, scale, given = 0, 0, True
    else:
        cls, want, sized = {
            "bit": (mssql.MSSQLBooleanType, pyodbc.SQL_BIT, None), "real": (dt.SqlRealType, pyodbc.SQL_REAL, None),
            "double": (dt.SqlDoubleType, pyodbc.SQL_DOUBLE, None), "float": (dt.SqlFloatType, pyodbc.SQL_FLOAT, 53),
            "decimal": (dt.SqlDecimalType, pyodbc.SQL_DECIMAL, 15), "timestamp": (dt.SqlTimestampType, pyodbc.SQL_TYPE_TIMESTAMP, 6),
            "date": (dt.SqlDateType, pyodbc.SQL_TYPE_DATE, None), "time": (dt.SqlTimeType, pyodbc.SQL_TYPE_TIME, 6),
            "char": (dt.SqlFixedCharacterType, pyodbc.SQL_CHAR, 0), "varchar": (mssql.MSSQLVariableCharacterType, pyodbc.SQL_VARCHAR, 0),
            "binary": (dt.SqlFixedBinaryType, pyodbc.SQL_BINARY, 0), "varbinary": (dt.SqlVariableBinaryType, pyodbc.SQL_VARBINARY, 0)}[k]
        args = [] if sized is None else [n, m] if k == "decimal" else [n]
        t = g.new(cls, *args)
        size_ = 0 if sized is None else n if not g.is_none(n) else sized
        given = sized is None or not g.is_none(n)
        scale = m if k == "decimal" and not g.is_none(m) else 0
    r = g.call(mssql.sql_to_odbc_type, t)
    g.ensure_eq("the type", g.item(r, 0), want)
    if given or sized in (0, 53):
        g.ensure_eq("its size", g.item(r, 1), size_)
    g.ensure_eq("its scale", g.item(r, 2), scale)
    g.cover("mapped")


class Cursor:
    def var(self, *args):
        return args


@contract("P18", "oracle_type", ["pysqlsync/dialect/oracle/data_types.py::sql_to_oracle_type"], covers=("mapped",), samples=400)
def oracle_type(g):
    import oracledb as o

    k = g.choice("kind", ["boolean", 1, 2, 4, 8, "number", "real", "double", "decimal", "timestamp", "date", "time", "char", "varchar", "varbinary", "json", "uuid", "interval"])
    n = limit(g, "n", 1, 4000)
    if isinstance(k, int):
        t, want = g.new(dt.SqlIntegerType, k), (o.DB_TYPE_NUMBER,) if k == 8 else (o.DB_TYPE_BINARY_INTEGER, k)
    elif k in ("char", "varchar", "varbinary"):
        cls, some, none = {"char": (dt.SqlFixedCharacterType, o.DB_TYPE_CHAR, (o.DB_TYPE_CHAR, 4000)),
                           "varchar": (oracle.OracleVariableCharacterType, o.DB_TYPE_VARCHAR, (o.DB_TYPE_CLOB,)),
                           "varbinary": (oracle.OracleVariableBinaryType, o.DB_TYPE_RAW, (o.DB_TYPE_BLOB,))}[k]
        t, want = g.new(cls, n), none if g.is_none(n) else (some, n)
    else:
        cls, want = {"boolean": (dt.SqlBooleanType, o.DB_TYPE_BOOLEAN), "number": (oracle.OracleIntegerType, o.DB_TYPE_NUMBER),
                     "real": (dt.SqlRealType, o.DB_TYPE_BINARY_FLOAT), "double": (dt.SqlDoubleType, o.DB_TYPE_BINARY_DOUBLE),
                     "decimal": (dt.SqlDecimalType, o.DB_TYPE_NUMBER), "timestamp": (oracle.OracleTimestampType, o.DB_TYPE_TIMESTAMP),
                     "json": (dt.SqlJsonType, o.DB_TYPE_UNKNOWN), "uuid": (dt.SqlUuidType, o.DB_TYPE_UNKNOWN), "interval": (dt.SqlIntervalType, o.DB_TYPE_UNKNOWN),
                     "date": (dt.SqlDateType, o.DB_TYPE_DATE), "time": (oracle.OracleTimeType, o.DB_TYPE_INTERVAL_DS)}[k]
        t, want = g.new(cls), (want,)
    g.ensure_eq("the type and its size", g.call(oracle.sql_to_oracle_type, g.new(Cursor), t), want)
    g.cover("mapped")


# ---------------------------------------------------------------------- the text of a type
LARGE = 2 ** 32


def struct_text(parts):
    return "STRUCT <" + ", ".join(parts) + ">"


def spelled():
    """
    How each type is spelled: the class, then the cases: the attributes given, numbers being a range, and the text, in
    which an attribute stands for its number.
    """
    n = lambda lo=1, hi=70000: (lo, hi)
    yield dt.SqlBooleanType, [({}, "boolean")]
    yield dt.SqlUuidType, [({}, "uuid")]
    yield dt.SqlIntegerType, [({"width": w, "signed": s}, t) for w, t in ((1, "tinyint"), (2, "smallint"), (4, "integer"), (8, "bigint")) for s in (True, False)] + [
        ({"width": 3}, None), ({"width": 16}, None)]
    yield dt.SqlRealType, [({}, "real")]
    yield dt.SqlDoubleType, [({}, "double precision")]
    yield dt.SqlFloatType, [({}, "float(53)"), ({"precision": n()}, "float(precision)")]
    yield dt.SqlDecimalType, [({}, "decimal"), ({"precision": n()}, "decimal(precision)"), ({"precision": n(), "scale": n(0)}, "decimal(precision,scale)")]
    yield dt.SqlFixedBinaryType, [({}, "binary"), ({"storage": n()}, "binary(storage)")]
    yield dt.SqlVariableBinaryType, [({}, "blob"), ({"storage": n()}, "varbinary(storage)")]
    yield dt.SqlFixedCharacterType, [({}, "char"), ({"limit": n()}, "char(limit)")]
    yield dt.SqlVariableCharacterType, [({}, "text"), ({"limit": n()}, "varchar(limit)")]
    for c, t in ((dt.SqlTimestampType, "timestamp"), (dt.SqlTimeType, "time")):
        yield c, [({}, t), ({"precision": n(0)}, f"{t}(precision)"), ({"with_time_zone": True}, f"{t} with time zone"),
                  ({"precision": n(0), "with_time_zone": True}, f"{t}(precision) with time zone")]
    yield dt.SqlDateType, [({}, "date")]
    yield dt.SqlIntervalType, [({}, "interval")]
    yield dt.SqlJsonType, [({}, "json")]
    yield delta.DeltaRealType, [({}, "float")]
    yield delta.DeltaDoubleType, [({}, "double")]
    yield delta.DeltaFixedBinaryType, [({}, "binary"), ({"storage": n()}, "binary")]
    yield delta.DeltaVariableBinaryType, [({}, "binary"), ({"storage": n()}, "binary")]
    yield delta.DeltaVariableCharacterType, [({}, "string"), ({"limit": n()}, "string")]
    yield delta.DeltaTimestampType, [({}, "timestamp_ntz")]
    yield mssql.MSSQLBooleanType, [({}, "bit")]
    for e, t, m in ((None, "varchar", 8000), (mssql.MSSQLEncoding.UTF8, "varchar", 8000), (mssql.MSSQLEncoding.UTF16, "nvarchar", 4000)):
        # a length has an upper bound, beyond which there is the maximum only
        yield mssql.MSSQLVariableCharacterType, [({"encoding": e}, f"{t}(max)"), ({"encoding": e, "limit": n(1, m)}, f"{t}(limit)"),
                                                 ({"encoding": e, "limit": n(m + 1, LARGE)}, f"{t}(max)"), ({"encoding": e, "limit": n(-1, 0)}, f"{t}(max)")]
    yield mssql.MSSQLDateTimeType, [({}, "datetime2")]
    yield mysql.MySQLDateTimeType, [({}, "datetime"), ({"precision": n(0)}, "datetime(precision)")]
    for c, a, short, middle, long in ((mysql.MySQLVariableCharacterType, "limit", "varchar", "mediumtext", "longtext"),
                                      (mysql.MySQLVariableBinaryType, "storage", "varbinary", "mediumblob", "longblob")):
        yield c, [({}, middle), ({a: n(1, 65535)}, f"{short}({a})"), ({a: n(65536, 2 ** 24 - 1)}, middle), ({a: n(2 ** 24, LARGE - 1)}, long), ({a: n(LARGE, LARGE * 2)}, None)]
    yield oracle.OracleIntegerType, [({}, "number")]
    yield oracle.OracleTimestampType, [({}, "timestamp"), ({"precision": n(0, 5)}, "timestamp(precision)"), ({"precision": n(7, 9)}, "timestamp(precision)"),
                                       ({"precision": n(6, 6)}, "timestamp"), ({"with_time_zone": True}, "timestamp with time zone"),
                                       ({"precision": n(7, 9), "with_time_zone": True}, "timestamp(precision) with time zone")]
    yield oracle.OracleTimeType, [({}, "interval day to second")]
    yield oracle.OracleVariableCharacterType, [({}, "clob"), ({"limit": n(1, 4000)}, "varchar2(limit)"), ({"limit": n(4001, LARGE)}, "clob")]
    yield oracle.OracleVariableBinaryType, [({}, "blob"), ({"storage": n(1, 2000)}, "raw(storage)"), ({"storage": n(2001, LARGE)}, "blob")]
    yield postgresql.PostgreSQLJsonType, [({}, "jsonb")]
    yield redshift.RedshiftVariableBinaryType, [({}, "varbyte"), ({"storage": n()}, "varbyte(storage)")]
    yield snowflake.SnowflakeDateTimeType, [({}, "datetime")]
    yield snowflake.SnowflakeJsonType, [({}, "variant")]


SPELLED = [(c, a, t) for c, cases in spelled() for a, t in cases]


def spell(g, text, numbers):
    "The text, with numbers for attributes; there may be a space after a comma."
    parts = [g.str(numbers[p]) if p in numbers else p for p in re.split(r"([(),])", text)]
    return [g.call(concat, parts), g.call(concat, [", " if type(p) is str and p == "," else p for p in parts])]


@contract("P18", "text_of_type", sorted({f"{c.__module__.replace('.', '/')}.py::{c.__name__}.__str__" for c, _, _ in SPELLED}),
          covers=("spelled", "refused"), samples=1500)
def text_of_type(g):
    cls, attrs, text = SPELLED[g.choice("case", list(range(len(SPELLED))))]
    values = {k: g.int(k, *v) if type(v) is tuple else v for k, v in attrs.items()}
    t = g.new(cls, **values)
    r = g.outcome(t, "__str__")
    if text is None:
        g.ensure("a size that the database does not have is refused", r.raised, r)
        g.cover("refused")
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    numbers = {k: v for k, v in values.items() if type(attrs[k]) is tuple}
    g.ensure(f"{cls.__name__}: as the database spells it", g.Or(*[g.eq(r.value, w) for w in spell(g, text, numbers)]), (r, text))
    g.cover("spelled")


@contract("P18", "text_of_compound", [TYPES + f"{c}.__str__" for c in ("SqlArrayType", "SqlStructMember", "SqlStructType", "SqlUserDefinedType")],
          covers=("array", "structure", "reference"))
def text_of_compound(g):
    kind = g.choice("kind", ["array", "structure", "reference"])
    if kind == "array":
        t = g.sql_type("element")
        g.ensure_eq("the element type, then that it is an array", g.str(g.new(dt.SqlArrayType, t)), g.call(concat, [g.str(t), " ARRAY"]))
    elif kind == "reference":
        i = g.new(QualifiedId, g.opt("schema", lambda p: g.name_text(p)), g.name_text("name"))
        g.ensure_eq("the name of the type, quoted", g.str(g.new(dt.SqlUserDefinedType, i)), g.str(i))
    else:
        m = g.seq("m", lambda p: g.new(dt.SqlStructMember, g.new(LocalId, g.name_text(f"{p}.name")), g.sql_type(f"{p}.type"), g.bool(f"{p}.nullable")))
        text = lambda x, *more: g.call(concat, [g.str(x.name), " ", g.str(x.data_type), *more])
        parts = g.cases(m, lambda x: [(x.nullable, text(x)), (g.Not(x.nullable), text(x, " NOT NULL"))])
        g.ensure_eq("every member, in order", g.str(g.new(dt.SqlStructType, g.to_list(m))), g.call(struct_text, parts))
    g.cover(kind)


# ---------------------------------------------------------------------- what else a column declares; tables; schemas
def plain_values(dialect):
    "The values of a row for a plain column of each dialect."
    return {"ansi": dict(data_type="date"), "limited": {}, "mssql": dict(data_type="date"), "mysql": dict(data_type="date", column_type="date"),
            "oracle": dict(data_type="DATE"), "postgresql": dict(type_name="date", type_def="date", type_schema="pg_catalog", is_array=False)}[dialect]


def attributes_contract(g, dialect):
    "Each column has the nullability, the identity, the default and the comment of its own row."
    names = ["first", "second"]
    wants, rows = [], []
    described = dialect in ("mysql", "oracle", "postgresql")
    identities, defaults = [], []
    for n in names:
        nullable, identity = g.flag(f"{n} nullable"), g.flag(f"{n} identity") and dialect not in ("ansi", "limited")
        default = g.text(f"{n}.default") if dialect != "limited" and g.flag(f"{n} default") and not (dialect == "oracle" and identity) else None
        comment = g.text(f"{n}.comment") if described and g.flag(f"{n} comment") else None
        if comment is not None and dialect != "oracle":
            g.assume(g.Not(g.eq(comment, "")))
        wants.append((nullable, identity, default, comment))
        v = plain_values(dialect)
        if dialect == "limited":
            rows.append((n, "date", 1 if nullable else 0))
        elif dialect in ("ansi", "mssql"):
            rows.append(record(g, fd.AnsiColumnMeta, column_name=n, nullable=1 if nullable else 0, column_default=default if dialect == "ansi" else None, **v))
            if identity:
                identities.append(n)
            if default is not None:
                defaults.append((n, default))
        elif dialect == "mysql":
            M = module("mysql", "discovery")
            # the attributes of a column are listed in a text
            more = g.choice("other attributes", ["", "DEFAULT_GENERATED", "INVISIBLE"]) if n == "first" else ""
            extra = " ".join(x for x in ("auto_increment" if identity else "", more) if x)
            rows.append(record(g, M.MySQLColumnMeta, column_name=n, nullable=1 if nullable else 0, extra=extra,
                               column_default=default, column_comment="" if comment is None else comment, **v))
        elif dialect == "oracle":
            M = module("oracle", "discovery")
            rows.append(record(g, M.OracleColumnMeta, column_name=n, is_nullable=1 if nullable else 0, is_identity=1 if identity else 0, data_default=default,
                               comments=comment, **v))
        else:
            M = module("postgresql", "discovery")
            rows.append(record(g, M.PostgreSQLColumnMeta, column_name=n, is_nullable=nullable, is_identity=identity, default_value=default, description=comment, **v))
    id_ = g.new(QualifiedId, "s", "t")
    if dialect in ("ansi", "limited"):
        conn = g.new(Connection, {fd.AnsiColumnMeta: rows, tuple[str, str, bool]: rows, int: 4})
        x = g.new(AnyExplorer, conn, g.new(SqlDiscovery), g.new(ObjectFactory))
        found = g.items(g.method(x, "_get_columns_limited" if dialect == "limited" else "_get_columns_full", id_))
    elif dialect == "mssql":
        conn = g.new(Connection, {fd.AnsiColumnMeta: rows, int: 4, str: identities, tuple[str, str]: defaults})
        found = g.items(g.method(own("mssql", "MSSQLExplorer")(g, conn), "get_columns", id_))
    elif dialect == "mysql":
        found = g.items(g.method(own("mysql", "MySQLExplorer")(g, g.new(Connection, {M.MySQLColumnMeta: rows})), "get_columns", id_))
    elif dialect == "oracle":
        key = record(g, M.OracleConstraintMeta, constraint_type="P", constraint_name="k", source_column="first")
        conn = g.new(Connection, {str: [], M.OracleColumnMeta: rows, M.OracleConstraintMeta: [key]})
        found = columns_of(g, g.method(g.new(M.OracleExplorer, conn), "get_table", g.new(PrefixedId, None, "t")), names)
    else:
        if g.symbolic:
            g.override(M.to_default_expr, lambda e, x: x)
        key = record(g, M.PostgreSQLConstraintMeta, constraint_type=b"p", constraint_name="k", source_column="first")
        conn = g.new(Connection, {M.PostgreSQLTableMeta: record(g, M.PostgreSQLTableMeta), M.PostgreSQLColumnMeta: rows, M.PostgreSQLConstraintMeta: [key]})
        found = columns_of(g, g.method(g.new(M.PostgreSQLExplorer, conn), "get_table", id_), names)
    g.ensure_eq("a column for each row", len(found), len(names))
    for n, c, (nullable, identity, default, comment) in zip(names, found, wants):
        g.ensure_eq(f"{n}: its name", g.attr(g.attr(c, "name"), "local_id"), n)
        g.ensure_eq(f"{n}: nullable", g.attr(c, "nullable"), nullable)
        g.ensure_eq(f"{n}: identity", g.attr(c, "identity"), identity)
        g.ensure_eq(f"{n}: default", g.attr(c, "default"), default)
        g.ensure_eq(f"{n}: comment", g.attr(c, "description"), comment)
    g.cover("read")


for _n, _f in (("ansi", "pysqlsync/formation/discovery.py::AnsiExplorer._get_columns_full"),
               ("limited", "pysqlsync/formation/discovery.py::AnsiExplorer._get_columns_limited"),
               ("mssql", "pysqlsync/dialect/mssql/discovery.py::MSSQLExplorer.get_columns"),
               ("mysql", "pysqlsync/dialect/mysql/discovery.py::MySQLExplorer.get_columns"),
               ("oracle", "pysqlsync/dialect/oracle/discovery.py::OracleExplorer.get_table"),
               ("postgresql", "pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_table")):
    contract("P18", f"attributes_{_n}", [_f], covers=("read",), samples=200)(lambda g, n=_n: attributes_contract(g, n))


@contract("P18", "members_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_struct"], covers=("read",), samples=200)
def members_postgresql(g):
    "Each member of a composite type has the name and the comment of its own row, and the type its comment."
    M = module("postgresql", "discovery")
    comments, rows = [], []
    for n in ("first", "second"):
        stored = g.text(f"{n}.comment") if g.flag(f"{n} comment") else None
        comments.append(None if stored is None or g.truth(g.eq(stored, "")) else stored)
        rows.append(record(g, M.PostgreSQLMemberMeta, member_name=n, description=stored, **plain_values("postgresql")))
    about = g.text("comment") if g.flag("comment") else None
    conn = g.new(Connection, {M.PostgreSQLStructMeta: record(g, M.PostgreSQLStructMeta, description=about), M.PostgreSQLMemberMeta: rows})
    id_ = g.new(QualifiedId, "s", "t")
    found = g.method(g.new(M.PostgreSQLExplorer, conn), "get_struct", id_)
    g.ensure("under its own name", g.eq(g.attr(found, "name"), id_))
    g.ensure_eq("its comment", g.attr(found, "description"), about)
    members = g.items(g.to_list(g.method(g.attr(found, "members"), "values")))
    g.ensure_eq("a member for each row", len(members), 2)
    for n, m, comment in zip(("first", "second"), members, comments):
        g.ensure_eq(f"{n}: its name", g.attr(g.attr(m, "name"), "local_id"), n)
        g.ensure_eq(f"{n}: comment", g.attr(m, "description"), comment)
    g.cover("read")


@contract("P18", "timestamps_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::to_default_expr"], covers=("timestamp", "other", "none"),
          bounded="arithmetic of datetime is native: random times", samples=400)
def timestamps_postgresql(g):
    "The default of a column is found as the expression for the same time; other expressions as they are."
    M = module("postgresql", "discovery")
    if g.symbolic:
        g.unsupported("datetime arithmetic")
    t = datetime.datetime(g.rng.randint(1, 9999), g.rng.randint(1, 12), g.rng.randint(1, 28), g.rng.randrange(24), g.rng.randrange(60), g.rng.randrange(60))
    kind = g.choice("kind", ["timestamp", "other", "none"])
    if kind == "timestamp":
        r = M.to_default_expr(f"'{t.isoformat(sep=' ')}'::timestamp without time zone")
        g.ensure("the same time", r == dt.constant(t), (r, t))
    elif kind == "other":
        s = g.rng.choice(["0", "NULL", f"'{t.isoformat(sep=' ')}'", "now()", "'it''s'::text", f"'{t.date().isoformat()}'::date", "''::text"])
        g.ensure("as it is", M.to_default_expr(s) == s, (s, M.to_default_expr(s)))
    else:
        g.ensure("no default", M.to_default_expr(None) is None)
    g.cover(kind)


class Found:
    "What is found of a table."

    def __init__(self, name=None, columns=None, primary_key=None, constraints=None, description=None, enums=None, structs=None, tables=None):
        self.name = name
        self.columns = columns
        self.primary_key = primary_key
        self.constraints = constraints
        self.description = description
        self.enums = enums
        self.structs = structs
        self.tables = tables


class TableFactory:
    def table_class(self, name, columns, primary_key, constraints=None, description=None):
        return Found(name=name, columns=columns, primary_key=primary_key, constraints=constraints, description=description)

    def namespace_class(self, name=None, *, enums=None, structs=None, tables=None):
        return Found(name=name, enums=enums or [], structs=structs or [], tables=tables or [])


class Parts(fd.AnsiExplorer):
    "An explorer whose queries are answered."

    async def has_table(self, table_id):
        return self.there

    async def has_constraints(self):
        return self.constrained

    async def get_columns(self, table_id):
        return self.parts[0]

    async def get_table_primary_key(self, table_id):
        return self.parts[1]

    async def get_unique_constraints(self, table_id):
        return self.parts[2]

    async def get_referential_constraints(self, table_id):
        return self.parts[3]

    async def get_table_description(self, table_id):
        return self.parts[4]


Parts.__abstractmethods__ = frozenset()


@contract("P18", "table", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_table"], covers=("found", "limited", "missing"), samples=200)
def table_found(g):
    "A table has the columns, the key, all the constraints and the comment that are found; a table that does not exist is refused."
    from pysqlsync.formation.discovery import DiscoveryError

    there, constrained = g.flag("there"), g.flag("constraints known")
    col = lambda p: g.new(object_types.Column, g.new(LocalId, g.name_text(p)), g.new(dt.SqlDateType), False)
    head = col("first")
    columns = g.flat(g.list_of(g.list_of(head), g.seq("c", lambda p: col(f"{p}.name"))))
    key = g.new(LocalId, g.text("key"))
    unique, foreign = g.seq("u", lambda p: g.opaque(p)), g.seq("f", lambda p: g.opaque(p))
    comment = g.opt("comment", g.text("comment"))
    x = g.obj(Parts, there=there, constrained=constrained, parts=(columns, (key,), unique, foreign, comment), factory=TableFactory())
    id_ = g.new(QualifiedId, "s", "t")
    r = g.outcome(x, "get_table", id_)
    if not there:
        g.ensure("refused", r.raised and isinstance(r.value, DiscoveryError), r)
        g.cover("missing")
        return
    g.ensure("found", not r.raised, r)
    if r.raised:
        return
    t = r.value
    g.ensure_eq("its name", g.attr(t, "name"), id_)
    g.ensure_eq("its columns, in order", g.attr(t, "columns"), columns)
    if constrained:
        g.ensure_eq("its key", g.attr(t, "primary_key"), (key,))
        want = g.flat(g.list_of(unique, foreign))
        g.ensure_eq("its constraints", g.call(or_empty, g.attr(t, "constraints")), want)
        g.ensure_eq("its comment", g.attr(t, "description"), comment)
        g.cover("found")
    else:
        g.ensure_eq("its first column is the key", g.attr(t, "primary_key"), (head.name,))
        g.ensure_eq("no constraints", g.call(or_empty, g.attr(t, "constraints")), g.list_of())
        g.cover("limited")


def or_empty(x):
    return x or []


class Either(fd.AnsiExplorer):
    "An explorer whose database has, or has not, all that is known of columns."

    async def has_column_extended_info(self):
        return self.extended

    async def _get_columns_full(self, table_id):
        return self.full, table_id

    async def _get_columns_limited(self, table_id):
        return self.limited, table_id


Either.__abstractmethods__ = frozenset()


@contract("P18", "columns", ["pysqlsync/formation/discovery.py::AnsiExplorer.get_columns"], covers=("full", "limited"), samples=20)
def columns_asked(g):
    "All that is known of columns is asked for, unless the database does not have it."
    extended = g.flag("extended")
    full, limited = g.opaque("full"), g.opaque("limited")
    x = g.obj(Either, extended=extended, full=full, limited=limited)
    id_ = g.new(QualifiedId, "s", "t")
    r = g.method(x, "get_columns", id_)
    g.ensure("full, if the database has it", g.item(r, 0) is (full if extended else limited), r)
    g.ensure("of this table", g.item(r, 1) is id_, r)
    g.cover("full" if extended else "limited")


class Listed(fd.AnsiExplorer):
    async def get_table(self, table_id):
        return table_id


Listed.__abstractmethods__ = frozenset()


def listed(cls):
    class Own(cls):
        async def get_table(self, table_id):
            return table_id

        async def get_struct(self, struct_id):
            return struct_id

    Own.__abstractmethods__ = frozenset()
    return Own


def schema_contract(g, kind, cls):
    "Each table that the query lists is in the schema found, once, in order, under its name; the default schema has no name."
    given = g.flag("given")
    ns = g.name_text("schema")
    names = g.seq("t", lambda p: g.name_text(p), lambda x: x)
    shown = names if kind != "flat" or not given else g.map(names, lambda n: g.call(flat_name, ns, n))
    conn = g.new(Connection, {str: shown})
    x = g.obj(listed(cls), conn=conn, factory=TableFactory())
    schema = g.new(LocalId, ns)
    method = {"qualified": "get_namespace_qualified", "flat": "get_namespace_flat", "mssql": "_get_namespace"}[kind]
    r = g.method(x, method, *([schema] if given else []))
    tables = g.attr(r, "tables")
    scope = ns if given else None
    id_ = (lambda n: g.new(PrefixedId, scope, n)) if kind == "flat" else (lambda n: g.new(QualifiedId, scope, n))
    got = g.map(tables, lambda i: (i.namespace, i.id))
    g.ensure_eq("each table, once, in order, under its name", got, g.map(names, lambda n: (scope, n)))
    g.ensure_eq("no types", (g.length(r.enums), g.length(r.structs)), (0, 0))
    if g.truth(g.Not(g.eq(g.length(names), 0))):
        g.ensure_eq("the name of the schema", r.name, g.new(LocalId, ns if given and kind != "flat" else ""))
        g.cover("found")
    else:
        g.cover("nothing")


def flat_name(ns, n):
    return f"{ns}__{n}"


class Flat(fd.AnsiExplorer):
    def get_qualified_id(self, namespace, id):
        return PrefixedId(namespace, id)


for _n, _c, _f in (("qualified", fd.AnsiExplorer, "pysqlsync/formation/discovery.py::AnsiExplorer.get_namespace_qualified"),
                   ("flat", Flat, "pysqlsync/formation/discovery.py::AnsiExplorer.get_namespace_flat"),
                   ("mssql", getattr(module("mssql", "discovery"), "MSSQLExplorer"), "pysqlsync/dialect/mssql/discovery.py::MSSQLExplorer._get_namespace")):
    contract("P18", f"schema_{_n}", [_f], covers=("found", "nothing"), samples=200)(lambda g, n=_n, c=_c: schema_contract(g, n, c))


@contract("P18", "schema_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_namespace"], covers=("found", "nothing"), samples=200)
def schema_postgresql(g):
    "Each table and composite type that the queries list is in the schema found, once, in order, under its name. (Enumerations: enums_postgresql.)"
    M = module("postgresql", "discovery")
    ns = g.name_text("schema")
    names = g.seq("t", lambda p: g.name_text(p), lambda x: x)
    conn = g.new(Connection, {M.PostgreSQLEnumMeta: [], str: names})
    x = g.obj(listed(M.PostgreSQLExplorer), conn=conn, factory=TableFactory())
    r = g.method(x, "get_namespace", g.new(LocalId, ns))
    for what in ("tables", "structs"):
        g.ensure_eq(f"each of the {what}, once, in order, under its name", g.map(g.attr(r, what), lambda i: (i.namespace, i.id)), g.map(names, lambda n: (ns, n)))
    g.ensure_eq("no enumerations", g.length(r.enums), 0)
    if g.truth(g.Not(g.eq(g.length(names), 0))):
        g.ensure_eq("the name of the schema", r.name, g.new(LocalId, ns))
        g.cover("found")
    else:
        g.cover("nothing")


@contract("P18", "enums_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_namespace"], covers=("one", "two"), samples=200,
          bounded="one or two adjacent enumerations of one or two values: the number of groups is not known in general")
def enums_postgresql(g):
    "Each enumeration has all its values, in order, and no others."
    M = module("postgresql", "discovery")
    names = [g.name_text("first"), g.name_text("second")]
    same = g.flag("one enumeration")
    if not same:
        g.assume(g.Not(g.eq(*names)))
    counts = [g.choice("values", [1, 2]), g.choice("more values", [1, 2])]
    rows, want = [], []
    for n, k, p in zip(names, counts, "ab"):
        values = [g.text(f"{p}{i}") for i in range(k)]
        if k == 2:
            g.assume(g.Not(g.eq(*values)))
        rows += [record(g, M.PostgreSQLEnumMeta, enum_name=n, enum_value=v) for v in values]
        want.append((n, values))
        if same:
            break
    x = g.obj(listed(M.PostgreSQLExplorer), conn=g.new(Connection, {M.PostgreSQLEnumMeta: rows, str: []}), factory=TableFactory())
    found = g.items(g.method(x, "get_namespace", g.new(LocalId, "ns")).enums)
    g.ensure_eq("each enumeration", len(found), len(want))
    for e, (n, values) in zip(found, want):
        g.ensure_eq("its name", g.attr(e, "name"), g.new(QualifiedId, "ns", n))
        g.ensure_eq("its values, in order", g.to_list(g.map(g.attr(e, "values"), lambda v: v)), g.list_of(*values))
    g.cover("one" if same else "two")


class Current(Connection):
    "A connection with a default schema."

    def __init__(self, answers, schema):
        self.answers = answers
        self.connection = self
        self.generator = self
        self.schema = schema

    async def current_schema(self):
        return self.schema


@contract("P18", "default_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_namespace_current"], covers=("found", "nothing"), samples=200)
def default_postgresql(g):
    "What is in the default schema has no schema in its name, like what is wanted in it."
    M = module("postgresql", "discovery")
    names = g.seq("t", lambda p: g.name_text(p), lambda x: x)
    conn = g.new(Current, {M.PostgreSQLEnumMeta: [], str: names}, g.name_text("schema"))
    r = g.method(g.obj(listed(M.PostgreSQLExplorer), conn=conn, factory=TableFactory()), "get_namespace_current")
    for what in ("tables", "structs"):
        g.ensure_eq(f"each of the {what}, once, in order, under its name", g.map(g.attr(r, what), lambda i: (i.namespace, i.id)), g.map(names, lambda n: (None, n)))
    if g.truth(g.Not(g.eq(g.length(names), 0))):
        g.ensure_eq("no name", r.name, g.new(LocalId, ""))
        g.cover("found")
    else:
        g.cover("nothing")


@contract("P18", "references_postgresql", ["pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_table", "pysqlsync/dialect/postgresql/discovery.py::PostgreSQLExplorer.get_struct"],
          covers=("default", "named"), samples=400)
def references_postgresql(g):
    "What a table or a composite type refers to is under its schema, except for what is in the default schema, if it is itself."
    M = module("postgresql", "discovery")
    schema, type_schema, target = g.name_text("schema"), g.name_text("type_schema"), g.name_text("target")
    default = g.flag("default")
    for s in (schema, type_schema):
        g.assume(g.Not(g.Or(*[g.eq(s, x) for x in ("pg_catalog", "SYS")])))
    same = g.eq(type_schema, schema), g.eq(target, schema)
    type_name, table_name = g.name_text("type_name"), g.name_text("table_name")
    v = dict(type_schema=type_schema, type_name=type_name, type_def='"a"."b"', is_array=False)
    id_ = g.new(QualifiedId, None if default else "own", "t")
    within = lambda s, is_same, n: g.new(QualifiedId, None, n) if default and g.truth(is_same) else g.new(QualifiedId, s, n)
    if g.flag("of a structure"):
        conn = g.new(Current, {M.PostgreSQLStructMeta: record(g, M.PostgreSQLStructMeta), M.PostgreSQLMemberMeta: [record(g, M.PostgreSQLMemberMeta, member_name="c", **v)]}, schema)
        t = g.method(g.new(M.PostgreSQLExplorer, conn), "get_struct", id_)
        c = g.method(g.attr(t, "members"), "__getitem__", "c")
    else:
        key = record(g, M.PostgreSQLConstraintMeta, constraint_type=b"p", constraint_name="k", source_column="c")
        ref = record(g, M.PostgreSQLConstraintMeta, constraint_type=b"f", constraint_name="f", source_column="c", target_namespace=target, target_table=table_name, target_column="d")
        conn = g.new(Current, {M.PostgreSQLTableMeta: record(g, M.PostgreSQLTableMeta), M.PostgreSQLConstraintMeta: [key, ref],
                               M.PostgreSQLColumnMeta: [record(g, M.PostgreSQLColumnMeta, column_name="c", is_nullable=True, is_identity=False, **v)]}, schema)
        t = g.method(g.new(M.PostgreSQLExplorer, conn), "get_table", id_)
        c = columns_of(g, t, ["c"])[0]
        f = g.items(g.to_list(g.method(g.attr(t, "constraints"), "values")))[0]
        g.ensure_eq("the table referred to", g.attr(g.attr(f, "reference"), "table"), within(target, same[1], table_name))
    d = g.attr(c, "data_type")
    g.ensure("a type of a user", g.isinstance(d, dt.SqlUserDefinedType), d)
    g.ensure_eq("the type of the column", g.attr(d, "ref"), within(type_schema, same[0], type_name))
    g.cover("default" if default else "named")


@contract("P18", "user_type", [DISCOVERY + n for n in ("sql_data_type_from_spec", "sql_data_type_from_name")], covers=("any", "like a built-in type"), samples=400)
def user_type(g):
    "A type in a schema of a user is that type, even if its name is like the one of a built-in type."
    schema = g.name_text("schema")
    g.assume(g.Not(g.Or(*[g.eq(schema, x) for x in ("pg_catalog", "SYS")])))
    n = g.choice("name", [None, "Number", "date", "Time", "interval", "Json", "text", "Binary", "uuid", "Float", "bool", "timestamp"])
    name = g.name_text("type_name") if n is None else n
    t = g.method(g.new(SqlDiscovery), "sql_data_type_from_spec", type_name=name, type_schema=schema, type_def='"a"."b"')
    g.ensure("a type of a user", g.isinstance(t, dt.SqlUserDefinedType), t)
    g.ensure_eq("its name", g.attr(t, "ref"), g.new(QualifiedId, schema, name))
    g.cover("any" if n is None else "like a built-in type")
