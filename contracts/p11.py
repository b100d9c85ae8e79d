"""P11 Every record value reaches the column it belongs to."""
from __future__ import annotations

import dataclasses
import datetime
import enum
import inspect
import ipaddress
import json
import typing
import uuid

import pysqlsync.base as pb
import pysqlsync.dialect.postgresql.connection as pg
import pysqlsync.dialect.redshift.connection as rs
from pysqlsync.formation import object_types as ot
from pysqlsync.model import data_types as dt
from pysqlsync.model.data_types import SqlDateType
from pysqlsync.model.id_types import LocalId, QualifiedId
from pysqlsync.model.key_types import Identity, IdentityTag, PrimaryKey
from pysqlsync.model.properties import get_field_properties

from contracts.common import column, key_of, qualified
from contracts.effects import threads
from contracts.p12 import Row, Source, Transformer, cell, converted, row_name, sym_converted, value, want
from contracts.p10 import generator_class, single_contract
from contracts.p14 import Lazy, Stream
from pyvc.contract import contract, finding

B = "pysqlsync/base.py::BaseContext."
NoneType = type(None)
IDENTITY = Identity[int]


# ---------------------------------------------------------------------- rows
class RowField:
    "A field of the rows: its label, its type and what its values are converted with."

    def __init__(self, name, type, transformer):
        self.name = name
        self.type = type
        self.transformer = transformer


class Recorder:
    "What is requested of the generator and passed to the database."

    def __init__(self):
        self.requests = []
        self.calls = []
        self.events = []

    def commit(self):
        self.events.append("committed")


class Generator:
    def __init__(self, recorder):
        self.recorder = recorder

    def get_table_insert_stmt(self, table, order=None):
        self.recorder.requests.append(("insert", table, order))
        return "INSERT"

    def get_table_upsert_stmt(self, table, order=None):
        self.recorder.requests.append(("upsert", table, order))
        return "UPSERT"


class Connection:
    def __init__(self, generator, native):
        self.generator = generator
        self.native = native


class RowContext(pb.BaseContext):
    "A context that records what would be executed."

    _execute = _execute_all = _query_all = None

    def __init__(self, connection, recorder):
        self.connection = connection
        self.recorder = recorder

    async def _execute_typed(self, statement, source, table, order=None):
        async for batch in source.batches():
            self.recorder.calls.append((statement, table, order, batch))


class CopyNative:
    "A connection of asyncpg."

    def __init__(self, recorder):
        self.recorder = recorder

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None, timeout=None, where=None):
        self.recorder.calls.append(("copy", (schema_name, table_name), columns, records))


def field_of(g, p, name, omitted_name):
    "A field may be omitted by an empty name or by type."
    if g.symbolic:
        import z3
        from pyvc.values import SBool, Text

        t = g.opaque(f"{p}.type", type)
        idle = SBool(g.e.fn("idle", Text, z3.BoolSort())(g.e.term(name)))
        return g.new(RowField, name, t, g.new(Transformer, name, idle))
    t = NoneType if g.bool(f"{p}.omitted by type") and g.bool("x") else g.choice(f"{p}.type", [int, str])
    return g.new(RowField, name, t, g.new(Transformer, name, g.bool(f"{p}.idle")))


def rows(g, cls, kind):
    qid = qualified(g, "table")
    named = g.flag("with names of fields")
    if named:
        cols = g.seq("c", lambda p: column(g, p, description=False), key_of)
        if g.symbolic:
            fields = g.seq("f", lambda p: field_of(g, p, g.text(f"{p}.name"), True))
        else:
            names = [c.name.id for c in cols]
            chosen = g.rng.sample(names, g.rng.randint(0, len(names)))
            fields = [field_of(g, f"f{i}", n, True) for i, n in enumerate(chosen)]
            for _ in range(g.choice("fields without a name", [0, 0, 1, 2])):
                fields.insert(g.rng.randint(0, len(fields)), field_of(g, "x", "", True))
    else:
        def make(p):
            c = column(g, p, description=False)
            return (c, field_of(g, p, c.name.id, False))
        pairs = g.seq("c", make, lambda x: x[0].name.id)
        cols, fields = g.map(pairs, lambda x: x[0]), g.map(pairs, lambda x: x[1])
    table = g.new(ot.Table, qid, cols, primary_key=(g.new(LocalId, g.name_text("pk")),), constraints=g.list_of())
    present = lambda f: g.And(g.Not(g.eq(f.name, "")), g.Not(is_none_type(g, f.type)))
    if named and g.symbolic:
        g.assume(g.eq(g.length(g.filter(fields, lambda f: g.And(present(f), g.Not(g.has_key(cols, f.name))))), 0))
    if kind == "insert" and cls is RowContext and not named:
        shown = g.filter(pairs, lambda x: g.And(present(x[1]), g.Not(x[0].identity)))
        kept = g.map(shown, lambda x: x[1])
    elif kind == "insert" and cls is RowContext:
        at = lambda n: g.at_key(cols, n)
        kept = g.filter(g.filter(fields, present), lambda f: g.Not(at(f.name).identity))
    else:
        kept = g.filter(fields, present)
    # records
    def record(p):
        xs = g.map(fields, lambda f: cell(g, p, f))
        return g.to_tuple(xs) if g.symbolic else Row(xs, fields)

    batches = g.seq("b", lambda p: g.seq(f"{p}.r", record))
    src = g.new(Source, batches)
    rec = g.new(Recorder)
    if g.symbolic:
        g.override(converted, sym_converted)
    of = {}

    def transformer(self, t, generator, index, field_type, field_name):
        g.ensure("the conversions of the table by the generator of the connection", t is table and generator is conn.generator)
        return fields[index].transformer

    if g.symbolic:
        import z3
        from pyvc.values import SBool, Text

        def transformer(e, self, t, generator, index, field_type, field_name):
            # the contract of _get_transformer: the conversion of the values at that index
            f = g.item(fields, index)
            g.ensure("the conversions of the table by the generator of the connection", t is table and generator is conn.generator)
            g.ensure("the transformer of the type and name of the field", g.And(g.eq(f.name, field_name), f.type.e == field_type.e), None)
            return f.transformer

        g.override(pb.BaseContext._get_transformer, transformer)
    else:
        g.stub(pb.BaseContext, "_get_transformer", transformer)
    conn = g.new(Connection, g.new(Generator, rec), g.new(CopyNative, rec))
    threads(g)
    if cls is RowContext:
        ctx = g.new(cls, conn, rec)
    else:
        ctx = g.new(cls, conn)
    if cls is rs.RedshiftContext:
        def copy(self, table_name, columns, records):
            rec.calls.append(("copy", table_name, columns, records))
        if g.symbolic:
            g.override(rs.RedshiftContext._insert_copy_stream, lambda e, self, t, c, r: e.call(recorded, [rec, t, c, r], {}))
        else:
            g.stub(rs.RedshiftContext, "_insert_copy_stream", copy)
    types = g.to_tuple(g.map(fields, lambda f: f.type))
    names = g.to_tuple(g.map(fields, lambda f: f.name)) if named else None
    r = g.outcome(ctx, f"_{kind}_rows", table, src, field_types=types, field_names=names)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    wanted_names = g.map(kept, lambda f: f.name)
    for req in g.items(rec.requests):
        k, t, order = g.items(req)
        g.ensure("the statement is that of the table", k == kind and t is table, k)
        g.ensure_eq("the statement has the columns of the fields kept, in order", order_of(g, order, cols, kind), wanted_names)
    calls = g.to_list(rec.calls)

    def expected(batch):
        def one(row):
            if g.symbolic:
                p = row_name(row)
                get = lambda f: cell(g, p, f)
            else:
                get = row
            xs = g.cases(kept, lambda f: want(g, f, get, batch))
            return g.e.new_seq(xs.items, "tuple") if g.symbolic else tuple(xs)
        return g.map(batch, one)

    g.ensure_eq("every record once, in order, every value converted and in the position of its field",
                g.map(calls, lambda c: g.to_list(g.item(c, 3))), g.map(batches, expected))
    if cls is RowContext:
        g.ensure_eq("the statement is executed", g.map(calls, lambda c: g.item(c, 0)), g.map(batches, lambda b: kind.upper()))
        g.ensure_eq("the types are those of the table", g.map(calls, lambda c: g.item(c, 1) is table), g.map(batches, lambda b: True))
        g.ensure_eq("one statement is made", g.length(rec.requests), 1)
        g.ensure_eq("the types are those of the columns of the fields, in order", g.map(calls, lambda c: order_of(g, g.item(c, 2), cols, kind)),
                    g.map(batches, lambda b: wanted_names))
    else:
        text = lambda n: n.id if hasattr(n, "id") else n
        g.ensure_eq("the columns are those of the fields kept, in order", g.map(calls, lambda c: g.map(g.item(c, 2), text)),
                    g.map(batches, lambda b: wanted_names))
        target = (g.attr(qid, "scope_id"), g.attr(qid, "local_id"))
        g.ensure_eq("into the table", g.map(calls, lambda c: target_of(g, g.item(c, 1))), g.map(batches, lambda b: target))
    g.cover("rows")


def recorded(rec, table_name, columns, records):
    rec.calls.append(("copy", table_name, columns, records))


def target_of(g, t):
    return t if isinstance(t, tuple) else (g.attr(t, "scope_id"), g.attr(t, "local_id"))


def order_of(g, order, cols, kind):
    "The names of the columns that the statement lists."
    if order is not None:
        return g.to_list(order)
    cs = g.filter(cols, lambda c: g.Not(c.identity)) if kind == "insert" else cols
    return g.map(cs, lambda c: c.name.id)


def is_none_type(g, t):
    if not g.symbolic:
        return t is NoneType
    return t.e == g.e.obj_term(NoneType)


for _n, _c, _k in (("base", RowContext, "insert"), ("base", RowContext, "upsert"), ("postgresql", pg.PostgreSQLContext, "insert"),
                   ("redshift", rs.RedshiftContext, "insert")):
    contract("P11", f"{_n}_{_k}_rows", [(B if _n == "base" else f"pysqlsync/dialect/{_n}/connection.py::{_c.__name__}.") + f"_{_k}_rows",
                                       B + "_generate_records", B + "_get_field_names"], covers=("rows",))(lambda g, c=_c, k=_k: rows(g, c, k))


# ---------------------------------------------------------------------- relations
T = "pysqlsync/formation/object_types.py::"
contract("P11", "is_relation", [T + "Table.is_relation"], covers=("found", "none"))(
    lambda g: single_contract(g, "is_relation", ot.ForeignConstraint, "foreign_columns"))
contract("P11", "get_constraint", [T + "Table.get_constraint"], covers=("found", "none"))(
    lambda g: single_contract(g, "get_constraint", ot.ForeignConstraint, "foreign_columns"))


class Stub:
    "An object of the database with given answers."

    def __init__(self, answer):
        self.answer = answer


class RelatedTable(ot.Table):
    "A table whose column is, or is not, a reference."

    def is_relation(self, column):
        return self.related and column is self.known[0]


class LookupTable(ot.Table):
    def is_lookup_table(self):
        return self.lookup


class State:
    def __init__(self, table, column, referenced):
        self.table = table
        self.column = column
        self.referenced = referenced

    def get_referenced_table(self, table_id, column_id):
        if table_id is not self.table.name or column_id is not self.column.name:
            raise KeyError("referenced table of another column")
        return self.referenced


class ConvertingGenerator:
    def __init__(self, state, conversion):
        self.state = state
        self.conversion = conversion
        self.requests = []

    def get_value_transformer(self, column, field_type):
        self.requests.append((column, field_type))
        return self.conversion


@contract("P11", "get_transformer", [B + "_get_transformer"],
          covers=("unknown column", "plain", "lookup of a value", "lookup of several values"))
def get_transformer(g):
    "The values of the field are converted for the column that the field is named for; look-ups by the referenced table."
    cols = g.seq("c", lambda p: column(g, p, description=False), key_of)
    name = g.text("name") if g.symbolic or not cols or g.rng.random() < 0.2 else g.choice("name", [c.name.id for c in cols])
    found = g.truth(g.has_key(cols, name))
    table = g.obj(RelatedTable, name=qualified(g, "table"), columns=g.new(ot.ObjectDict, cols), primary_key=(), related=g.bool("related"), known=[])
    col = g.at_key(cols, name) if found else None
    if found:
        table.known.append(col)
    ref = g.obj(LookupTable, name=qualified(g, "ref"), columns=g.new(ot.ObjectDict, g.list_of()), lookup=g.bool("lookup"))
    gen = g.new(ConvertingGenerator, g.new(State, table, col, ref), g.choice("conversion", [None, abs]))
    t = g.choice("type", [str, int, list, set, dict, bytes])
    ctx = g.obj(RowContext, connection=None, recorder=None)
    index = g.int("index")
    if g.symbolic:
        g.assume(g.Not(g.gt(0, index)))
    r = g.outcome(ctx, "_get_transformer", table, gen, index, t, name)
    if not found:
        g.ensure("a field of an unknown column is refused", r.raised and isinstance(r.value, ValueError), r)
        g.cover("unknown column")
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    x = r.value
    if g.truth(g.And(table.related, ref.lookup)) and t in (str, list, set):
        want_type = pb.EnumTransformer if t is str else pb.EnumListTransformer
        g.ensure("values are looked up in the referenced table", type(x) is want_type and x.context is ctx and x.table is ref and x.generator is gen, x)
        if type(x) is want_type:
            g.ensure_eq("the values of the field", x.index, index)
        g.cover("lookup of a value" if t is str else "lookup of several values")
    else:
        g.ensure("values are converted for the column and the type", type(x) is pb.ScalarTransformer and g.method(x, "get", g.list_of()) is gen.conversion, x)
        for req in g.items(gen.requests):
            c, ft = g.items(req)
            g.ensure("the conversion of the column and the type", g.And(g.eq(c.name.id, name), ft is t), req)
        g.ensure_eq("one conversion", g.length(gen.requests), 1)
        g.cover("plain")


# ---------------------------------------------------------------------- values
class Day(enum.Enum):
    MON = "monday"
    TUE = "tuesday"


class Number(enum.IntEnum):
    ONE = 1


class Binary:
    "A value with the attributes of unique identifiers, addresses and enumeration members."

    def __init__(self, bytes, packed, value):
        self.bytes = bytes
        self.packed = packed
        self.value = value


class Holder:
    def __init__(self, field):
        self.field = field


IP = (ipaddress.IPv4Address, ipaddress.IPv6Address, typing.Union[ipaddress.IPv4Address, ipaddress.IPv6Address])
TYPES = (int, str, bytes, datetime.datetime, uuid.UUID, *IP, Day, Number, datetime.time)
BINARY = ("mysql", "mssql", "oracle", "redshift")
DIALECTS = ("postgresql", "mysql", "mssql", "oracle", "redshift", "trino", "delta", "snowflake")


def sample(g, t):
    if g.symbolic:
        return g.new(Binary, g.opaque("bytes"), g.opaque("packed"), g.opaque("value"))
    return {uuid.UUID: lambda: uuid.UUID(int=g.rng.getrandbits(128)), Day: lambda: g.choice("member", list(Day)), Number: lambda: Number.ONE,
            datetime.time: lambda: datetime.time(g.rng.randrange(24), g.rng.randrange(60), g.rng.randrange(60), g.rng.randrange(1000000)),
            IP[0]: lambda: ipaddress.IPv4Address(g.rng.getrandbits(32)), IP[2]: lambda: ipaddress.IPv4Address(g.rng.getrandbits(32)),
            IP[1]: lambda: ipaddress.IPv6Address(g.rng.getrandbits(128))}.get(t, lambda: "a value")()


def elapsed(t):
    "The time since midnight."
    return datetime.timedelta(hours=t.hour, minutes=t.minute, seconds=t.second, microseconds=t.microsecond)


def stored(g, dialect, t, v):
    "What the driver of the database is given for the value."
    if dialect in BINARY and t is uuid.UUID:
        return v.bytes
    if dialect in BINARY and t in IP:
        return v.packed
    if dialect == "oracle" and t is datetime.time:
        return g.call(elapsed, v)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return v.value
    return v


def generator_of(g, dialect):
    import pysqlsync.dialect.oracle.generator as og

    if g.symbolic:
        import z3
        from pyvc.values import Obj, Opaque

        # assumed: the arithmetic of datetime, checked natively by time_to_interval below
        f = lambda e, v: Opaque(e.fn("elapsed", Obj, Obj)(e.obj_term(v)))
        g.override(og.time_to_interval, f)
        g.override(elapsed, f)
    return g.obj(generator_class(dialect))


def value_transformer(g, dialect):
    gen = generator_of(g, dialect)
    data_type = g.choice("column", [dt.SqlJsonType(), dt.SqlVariableCharacterType(), dt.SqlVariableCharacterType(100), dt.SqlIntegerType(8),
                                    dt.SqlUuidType(), dt.SqlVariableBinaryType(), dt.SqlTimeType()])
    text = isinstance(data_type, dt.SqlVariableCharacterType)
    json_column = isinstance(data_type, dt.SqlJsonType)
    if json_column or text and g.choice("collection", [False, True]):
        t = g.choice("type", [dict, list, set])
        v = {dict: {"a": [1, None, "\u00e9\"'\\"]}, list: [1, "x", None], set: {"x"}}[t]
    else:
        t = g.choice("type", TYPES)
        v = None
    col = g.new(ot.Column, g.new(LocalId, g.name_text("c")), data_type, g.bool("nullable"))
    f = g.outcome(gen, "get_value_transformer", col, t)
    g.ensure("there is a conversion", not f.raised, f)
    if f.raised:
        return
    if v is not None:
        g.ensure("collections are converted", f.value is not None, f.value)
        if f.value is not None:
            r = g.call(f.value, v)
            g.ensure("the text of the collection", json.loads(r) == (list(v) if t is set else v), r)
        g.cover("collection")
        return
    v = sample(g, t)
    r = v if f.value is None else g.call(f.value, v)
    w = stored(g, dialect, t, v)
    g.ensure("the value is converted as the driver expects", w is r if isinstance(w, Binary) else g.eq(r, w), (t, r, w))
    g.cover("value")


def field_extractor(g, dialect):
    gen = generator_of(g, dialect)
    t = g.choice("type", TYPES)
    kind = g.choice("declared", ["plain", "optional", "annotated", "key"])
    declared = {"plain": t, "optional": typing.Optional[t], "annotated": typing.Annotated[t, "note"], "key": PrimaryKey[t]}[kind]
    null = g.truth(g.flag("null"))
    v = None if null else sample(g, t)
    col = g.new(ot.Column, g.new(LocalId, "field"), dt.SqlVariableBinaryType(), True)
    f = g.outcome(gen, "_get_nullable_extractor", col, "field", declared)
    g.ensure("the field is read", not f.raised, f)
    if f.raised:
        return
    r = g.outcome(f.value, None, g.new(Holder, v))
    g.ensure("the value is read", not r.raised, r)
    if null:
        g.ensure("no value remains no value", g.eq(r.value, None), r)
        g.cover("null")
    else:
        w = stored(g, dialect, t, v)
        g.ensure("the value is converted as the driver expects", w is r.value if isinstance(w, Binary) else g.eq(r.value, w), (t, r, w))
        g.cover("value")


for _d in DIALECTS:
    _o = any(f"def {n}(" in inspect.getsource(generator_class(_d)) for n in ("get_value_transformer",))
    _p = f"pysqlsync/dialect/{_d}/generator.py::{generator_class(_d).__name__}." if _o else "pysqlsync/base.py::BaseGenerator."
    contract("P11", f"{_d}_value_transformer", [_p + "get_value_transformer"], covers=("collection", "value"))(lambda g, d=_d: value_transformer(g, d))
    contract("P11", f"{_d}_field_extractor", [_p + "get_field_extractor", "pysqlsync/base.py::BaseGenerator._get_nullable_extractor"],
             covers=("null", "value"))(lambda g, d=_d: field_extractor(g, d))


@contract("P11", "time_to_interval", ["pysqlsync/dialect/oracle/generator.py::time_to_interval"], bounded="arithmetic of datetime is native: random times")
def interval(g):
    if g.symbolic:
        g.unsupported("datetime arithmetic")
    import pysqlsync.dialect.oracle.generator as og

    t = sample(g, datetime.time)
    aware = g.bool("aware")
    r = og.time_to_interval(t.replace(tzinfo=datetime.timezone.utc) if aware else t)
    g.ensure("the time since midnight", r == elapsed(t), (t, r))


# ---------------------------------------------------------------------- data classes
class DataState:
    def __init__(self, tables):
        self.tables = tables

    def get_table(self, table_id):
        if table_id is not self.tables[0]:
            raise KeyError("another table")
        return self.tables[1]


class DataGenerator(pb.BaseGenerator):
    "A generator that records the statements requested."

    create = placeholder = None

    def __init__(self, state, ref, recorder):
        self.state = state
        self.ref = ref
        self.recorder = recorder

    def get_qualified_id(self, ref):
        return self.ref

    def get_table_insert_stmt(self, table, order=None):
        self.recorder.requests.append(("insert", table, order))
        return "INSERT"

    def get_table_upsert_stmt(self, table, order=None):
        self.recorder.requests.append(("upsert", table, order))
        return "UPSERT"

    def get_table_delete_stmt(self, table):
        self.recorder.requests.append(("delete", table, None))
        return "DELETE"


class FieldInfo:
    "A field of a data class."

    def __init__(self, name, type):
        self.name = name
        self.type = type


class Entity:
    "An object of a data class."

    def __init__(self, values):
        self.values = values


class Extractor:
    def __init__(self, name):
        self.name = name

    def extract(self, obj):
        return extracted(self.name, obj)


def extracted(name, obj):
    return ("extracted", name, obj)


class DataContext(pb.BaseContext):
    _execute = _execute_all = _query_all = None

    def __init__(self, connection, recorder):
        self.connection = connection
        self.recorder = recorder

    async def execute_all(self, statement, records):
        self.recorder.calls.append((statement, list(records)))


def fields_of(g, cls, fields):
    "The fields of the data class of the records, which the contract supplies."
    g.ensure("the fields of the data class of the records", cls is Day or cls is Record, "the class given")
    return fields


def class_data(g, kind):
    "The records passed have the values of the fields, in the order of the columns of the statement."
    def make(p):
        c = column(g, p, description=False)
        return (c, g.new(FieldInfo, c.name.id, int))

    pairs = g.seq("c", make, lambda x: x[0].name.id)
    cols, fields = g.map(pairs, lambda x: x[0]), g.map(pairs, lambda x: x[1])
    qid = qualified(g, "table")
    table = g.obj(ot.Table, name=qid, columns=g.new(ot.ObjectDict, cols), primary_key=(), constraints=None, description=None)
    rec = g.new(Recorder)
    gen = g.new(DataGenerator, g.new(DataState, [qid, table]), qid, rec)
    if g.symbolic:
        import z3
        from pyvc.values import Obj, Opaque, Text

        g.override(dataclasses.fields, lambda e, cls: fields_of(g, cls, fields))
        g.override(extracted, lambda e, n, o: Opaque(e.fn("extracted", Text, Obj, Obj)(e.term(n), e.obj_term(o))))
        g.override(pb.BaseGenerator._get_nullable_extractor, lambda e, self, c, n, t: extractor(g, c, n, t))
    else:
        g.stub(dataclasses, "fields", lambda cls: fields_of(g, cls, list(fields)))
        g.stub(pb.BaseGenerator, "_get_nullable_extractor", lambda self, c, n, t: extractor(g, c, n, t))
    converts = False
    if kind == "delete":
        # the key is one of the fields
        if g.symbolic:
            from pyvc.values import Obj, Opaque

            name = g.name_text("pk")
            g.assume(g.has_key(cols, name))
            g.override(convert, lambda e, v: Opaque(e.fn("key", Obj, Obj)(e.obj_term(v))))
        else:
            g.assume(len(cols) > 0)
            name = g.choice("pk", [c.name.id for c in cols])
        table.primary_key = (g.new(LocalId, name),)
        converts = g.truth(g.flag("converted"))

        def transformer(self, column, field_type):
            g.ensure("the conversion of the key", g.And(g.eq(column.name.id, name), field_type is int), column)
            return convert if converts else None

        if g.symbolic:
            g.override(pb.BaseGenerator.get_value_transformer, lambda e, *a: transformer(*a))
        else:
            g.stub(pb.BaseGenerator, "get_value_transformer", transformer)
    items = g.seq("r", lambda p: g.opaque(p))
    shape = g.choice("data", ["list", "iterable"])
    data = items if shape == "list" else g.new(Lazy, items)
    ctx = g.new(DataContext, g.new(Connection, gen, None), rec)
    r = g.outcome(ctx, f"{kind}_data", Day, data)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    calls = g.items(rec.calls)
    if shape == "list" and g.truth(g.eq(g.length(items), 0)):
        g.ensure("no statement without data", len(calls) == 0, calls)
        g.cover("no data")
        return
    g.ensure("one statement", len(calls) == 1, calls)
    if len(calls) != 1:
        return
    statement, records = g.items(calls[0])
    g.ensure("the statement", statement == kind.upper(), statement)
    for req in g.items(rec.requests):
        k, t, order = g.items(req)
        g.ensure("the statement of the table", k == kind and t is table, k)
        if kind != "delete":
            g.ensure_eq("the statement lists the fields in order", g.to_list(order), g.map(fields, lambda f: f.name))
    g.ensure_eq("one request", g.length(rec.requests), 1)
    if kind == "delete":
        expected = g.map(items, lambda v: (g.call(convert, v) if converts else v,))
    else:
        kept = g.filter(pairs, lambda x: g.Not(x[0].identity)) if kind == "insert" else pairs
        expected = g.map(items, lambda v: g.to_tuple(g.map(kept, lambda x: g.call(extracted, x[1].name, v))))
    g.ensure_eq("every record once, in order, with the values of the fields of the columns supplied", records, expected)
    g.cover("data")


def extractor(g, c, n, t):
    g.ensure("the conversion for the column of the field", g.And(g.eq(c.name.id, n), t is int), n)
    x = Extractor(n)
    return x.extract


for _k in ("insert", "upsert", "delete"):
    _r = ("get_dataclass_keys_as_records",) if _k == "delete" else ("get_dataclasses_as_records", "_get_dataclass_extractors")
    contract("P11", f"{_k}_data", [B + f"{_k}_data", *("pysqlsync/base.py::BaseGenerator." + n for n in _r), f"pysqlsync/base.py::BaseGenerator.get_dataclass_{_k}_stmt"],
             covers=("no data", "data"))(lambda g, k=_k: class_data(g, k))


@dataclasses.dataclass
class Record:
    "A data class; its fields are supplied by the contract."


class FieldType:
    "The type of a field of a data class."

    def __init__(self, identity):
        self.is_identity = identity


def copied_data(g, cls, dialect):
    "A bulk load names the columns of the fields whose values the records have, in the same order."
    def make(p):
        c = column(g, p, description=False)
        # the state is derived from the data class: the marks of the field are those of the column (property P20)
        t = g.new(FieldType, c.identity) if g.symbolic else g.rng.choice([IDENTITY, typing.Optional[typing.Annotated[int, IdentityTag()]]]) if c.identity else int
        return (c, g.new(FieldInfo, c.name.id, t))

    pairs = g.seq("c", make, lambda x: x[0].name.id)
    cols, fields = g.map(pairs, lambda x: x[0]), g.map(pairs, lambda x: x[1])
    qid = qualified(g, "table")
    table = g.obj(ot.Table, name=qid, columns=g.new(ot.ObjectDict, cols), primary_key=(), constraints=None, description=None)
    rec = g.new(Recorder)
    gen = g.new(DataGenerator, g.new(DataState, [qid, table]), qid, rec)

    def extractor(c, n):
        g.ensure("the conversion for the column of the field", g.eq(c.name.id, n), n)
        return Extractor(n).extract

    if g.symbolic:
        from pyvc.values import Obj, Opaque, Text

        g.override(dataclasses.fields, lambda e, cls: fields_of(g, cls, fields))
        g.override(get_field_properties, lambda e, t: t)
        g.override(extracted, lambda e, n, o: Opaque(e.fn("extracted", Text, Obj, Obj)(e.term(n), e.obj_term(o))))
        g.override(pb.BaseGenerator._get_nullable_extractor, lambda e, self, c, n, t: extractor(c, n))
        g.override(rs.RedshiftContext._insert_copy_stream, lambda e, self, t, c, r: e.call(recorded, [rec, t, c, r], {}))
    else:
        g.stub(dataclasses, "fields", lambda cls: fields_of(g, cls, list(fields)))
        g.stub(pb.BaseGenerator, "_get_nullable_extractor", lambda self, c, n, t: extractor(c, n))
        g.stub(rs.RedshiftContext, "_insert_copy_stream", lambda self, t, c, r: rec.calls.append(("copy", t, c, list(r))))
    items = g.seq("r", lambda p: g.opaque(p))
    shape = g.choice("data", ["list", "iterable"])
    data = items if shape == "list" else g.new(Lazy, items)
    threads(g)
    ctx = g.new(cls, g.new(Connection, gen, g.new(CopyNative, rec)))
    r = g.outcome(ctx, "insert_data", Record, data)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    calls = g.items(rec.calls)
    if shape == "list" and g.truth(g.eq(g.length(items), 0)):
        g.ensure("nothing is loaded without data", len(calls) == 0, calls)
        g.cover("no data")
        return
    g.ensure("loaded once", len(calls) == 1, calls)
    if len(calls) != 1:
        return
    _, target, columns, records = g.items(calls[0])
    kept = g.filter(pairs, lambda x: g.Not(x[0].identity))
    g.ensure_eq("into the table of the data class", target_of(g, target), (g.attr(qid, "scope_id"), g.attr(qid, "local_id")))
    text = lambda n: n.id if hasattr(n, "id") else n
    g.ensure_eq("the columns of the fields other than identity fields, in order", g.map(g.to_list(columns), text), g.map(kept, lambda x: x[1].name))
    g.ensure_eq("every record once, in order, with the values of those fields in order", g.to_list(records),
                g.map(items, lambda v: g.to_tuple(g.map(kept, lambda x: g.call(extracted, x[1].name, v)))))
    g.cover("data")


for _n, _c in (("postgresql", pg.PostgreSQLContext), ("redshift", rs.RedshiftContext)):
    contract("P11", f"{_n}_insert_data", [f"pysqlsync/dialect/{_n}/connection.py::{_c.__name__}.insert_data"], covers=("no data", "data"),
             assumes=("the identity columns of the table are those of the fields marked as identity (property P20)",))(
        lambda g, n=_n, c=_c: copied_data(g, c, n))


@contract("P11", "as_record", ["pysqlsync/base.py::BaseGenerator.get_dataclass_as_record"], covers=("all fields", "without identity"))
def as_record(g):
    def make(p):
        c = column(g, p, description=False)
        return (c, g.new(FieldInfo, c.name.id, int))

    pairs = g.seq("c", make, lambda x: x[0].name.id)
    cols, fields = g.map(pairs, lambda x: x[0]), g.map(pairs, lambda x: x[1])
    qid = qualified(g, "table")
    table = g.obj(ot.Table, name=qid, columns=g.new(ot.ObjectDict, cols), primary_key=(), constraints=None, description=None)
    gen = g.new(DataGenerator, g.new(DataState, [qid, table]), qid, None)
    if g.symbolic:
        from pyvc.values import Obj, Opaque, Text

        g.override(dataclasses.fields, lambda e, cls: fields_of(g, cls, fields))
        g.override(extracted, lambda e, n, o: Opaque(e.fn("extracted", Text, Obj, Obj)(e.term(n), e.obj_term(o))))
        g.override(pb.BaseGenerator._get_nullable_extractor, lambda e, self, c, n, t: extractor(g, c, n, t))
    else:
        g.stub(dataclasses, "fields", lambda cls: fields_of(g, cls, list(fields)))
        g.stub(pb.BaseGenerator, "_get_nullable_extractor", lambda self, c, n, t: extractor(g, c, n, t))
    v = g.opaque("record")
    skip = g.truth(g.flag("without identity"))
    r = g.outcome(gen, "get_dataclass_as_record", Day, v, skip_identity=skip)
    g.ensure("not refused", not r.raised, r)
    if not r.raised:
        kept = g.filter(pairs, lambda x: g.Not(x[0].identity)) if skip else pairs
        g.ensure_eq("the values of the fields in order", r.value, g.to_tuple(g.map(kept, lambda x: g.call(extracted, x[1].name, v))))
        g.cover("without identity" if skip else "all fields")


# ---------------------------------------------------------------------- rows: entry points
class EntryContext(pb.BaseContext):
    _execute = _execute_all = _query_all = None

    def __init__(self, connection, recorder):
        self.connection = connection
        self.recorder = recorder

    async def _insert_rows(self, table, source, *, field_types, field_names=None):
        self.recorder.calls.append(("insert", table, source, field_types, field_names))

    async def _upsert_rows(self, table, source, *, field_types, field_names=None):
        self.recorder.calls.append(("upsert", table, source, field_types, field_names))


def entry(g, kind):
    table = g.obj(ot.Table, name=qualified(g, "table"), columns=None, primary_key=(), constraints=None, description=None)
    rec = g.new(Recorder)
    ctx = g.new(EntryContext, None, rec)
    shape = g.choice("records", ["list", "iterable", "async"])
    items = g.seq("r", lambda p: g.opaque(p))
    records = items if shape == "list" else g.new(Lazy if shape == "iterable" else Stream, items)
    types, names = g.opaque("types"), g.opaque("names")
    r = g.outcome(ctx, f"{kind}_rows", table, records, field_types=types, field_names=names)
    g.ensure("not refused", not r.raised, r)
    calls = g.items(rec.calls)
    if shape == "list" and g.truth(g.eq(g.length(items), 0)):
        g.ensure("nothing to do without records", len(calls) == 0, calls)
        g.cover("no data")
        return
    g.ensure("done once", len(calls) == 1, calls)
    if len(calls) == 1:
        k, t, src, ft, fn = g.items(calls[0])
        g.ensure("into the table", k == kind and t is table, k)
        g.ensure("all the records", isinstance(src, pb.AsyncIterableDataSource if shape == "async" else pb.IterableDataSource) and src.records is records, src)
        g.ensure("the types and names of the fields", ft is types and fn is names, ft)
        g.cover("data")


for _k in ("insert", "upsert"):
    contract("P11", f"{_k}_rows", [B + f"{_k}_rows", "pysqlsync/base.py::to_data_source"], covers=("no data", "data"))(lambda g, k=_k: entry(g, k))


class KeyGenerator:
    def __init__(self, conversion, recorder):
        self.conversion = conversion
        self.recorder = recorder

    def get_value_transformer(self, column, field_type):
        self.recorder.requests.append((column, field_type))
        return convert if self.conversion else None

    def get_table_delete_stmt(self, table):
        self.recorder.requests.append((table, None))
        return "DELETE"


def convert(v):
    return ("converted", v)


class DeleteContext(pb.BaseContext):
    _execute = _execute_all = _query_all = None

    def __init__(self, connection, recorder):
        self.connection = connection
        self.recorder = recorder

    async def _execute_typed(self, statement, source, table, order=None):
        self.recorder.calls.append((statement, table, order, source.records))


@contract("P11", "delete_rows", [B + "delete_rows", B + "_delete_rows", T + "Table.get_primary_column"], covers=("no data", "data"))
def delete_rows(g):
    cols = g.seq("c", lambda p: column(g, p, description=False), key_of)
    if g.symbolic:
        name = g.name_text("pk")
        g.assume(g.has_key(cols, name))
    else:
        g.assume(len(cols) > 0)
        name = g.choice("pk", [c.name.id for c in cols])
    table = g.obj(ot.Table, name=qualified(g, "table"), columns=g.new(ot.ObjectDict, cols), primary_key=(g.new(LocalId, name),), constraints=None, description=None)
    rec = g.new(Recorder)
    conversion = g.truth(g.flag("converted"))
    if g.symbolic:
        from pyvc.values import Obj, Opaque

        g.override(convert, lambda e, v: Opaque(e.fn("key", Obj, Obj)(e.obj_term(v))))
    gen = g.new(KeyGenerator, conversion, rec)
    ctx = g.new(DeleteContext, g.new(Connection, gen, None), rec)
    items = g.seq("k", lambda p: g.opaque(p))
    shape = g.choice("keys", ["list", "iterable"])
    r = g.outcome(ctx, "delete_rows", table, int, items if shape == "list" else g.new(Lazy, items))
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    calls = g.items(rec.calls)
    if shape == "list" and g.truth(g.eq(g.length(items), 0)):
        g.ensure("nothing to do without keys", len(calls) == 0, calls)
        g.cover("no data")
        return
    g.ensure("one statement", len(calls) == 1, calls)
    if len(calls) != 1:
        return
    statement, t, order, records = g.items(calls[0])
    g.ensure("the statement of the table", statement == "DELETE" and t is table, statement)
    g.ensure_eq("the column of the statement", g.to_list(order), g.list_of(name))
    first = g.items(g.items(rec.requests)[0])
    g.ensure("the conversion of the key", g.And(g.eq(first[0].name.id, name), first[1] is int), first)
    g.ensure_eq("every key once, in order, converted", g.to_list(records), g.map(items, lambda v: (g.call(convert, v) if conversion else v,)))
    g.cover("data")


# ---------------------------------------------------------------------- types bound by the drivers
class TypedCursor:
    def __init__(self, recorder):
        self.recorder = recorder

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.recorder.commit()
        return False

    def setinputsizes(self, *sizes):
        self.recorder.requests.append(sizes)

    def executemany(self, statement, records):
        self.recorder.events.append("executed")
        self.recorder.calls.append((statement, records))


class TypedNative:
    def __init__(self, recorder):
        self.recorder = recorder

    def cursor(self):
        return TypedCursor(self.recorder)

    def commit(self):
        self.recorder.commit()


def typed(g, dialect):
    "The types declared to the driver are those of the columns of the statement, one for each, in order."
    import pysqlsync.dialect.mssql.connection as ms
    import pysqlsync.dialect.oracle.connection as oc

    threads(g)
    cols = g.seq("c", lambda p: column(g, p, description=False), key_of)
    listed = g.truth(g.flag("listed"))
    if not listed:
        order, wanted = None, cols
    elif g.symbolic:
        names = g.seq("n", lambda p: g.text(f"{p}.id"))
        g.assume(g.eq(g.length(g.filter(names, lambda n: g.Not(g.has_key(cols, n)))), 0))
        order, wanted = g.to_tuple(names), g.map(names, lambda n: g.at_key(cols, n))
    else:
        names = g.rng.sample([c.name.id for c in cols], g.rng.randint(0, len(cols)))
        order, wanted = tuple(names), [next(c for c in cols if c.name.id == n) for n in names]
    table = g.obj(ot.Table, name=qualified(g, "table"), columns=g.new(ot.ObjectDict, cols), primary_key=(), constraints=None, description=None)
    rec = g.new(Recorder)
    conn = g.obj(ms.MSSQLConnection if dialect == "mssql" else oc.OracleConnection, native=g.new(TypedNative, rec), generator=None, params=None)
    ctx = g.new(ms.MSSQLContext if dialect == "mssql" else oc.OracleContext, conn)
    if g.symbolic:
        from pyvc.values import Obj, Opaque

        bound = lambda e, *a: Opaque(e.fn("bound", Obj, Obj)(e.obj_term(a[-1])))
        g.override(ms.sql_to_odbc_type, bound)
        g.override(oc.sql_to_oracle_type, bound)
    else:
        g.stub(ms, "sql_to_odbc_type", lambda t: ("bound", t))
        g.stub(oc, "sql_to_oracle_type", lambda cur, t: ("bound", t))
    batches = g.seq("b", lambda p: g.seq(f"{p}.r", lambda q: g.opaque(q)))
    # Oracle takes a statement without the semicolon at the end
    sql = "INSERT INTO t" if dialect == "oracle" else g.text("sql")
    end = g.choice("end", ["", ";", " ;\n"]) if dialect == "oracle" else ""
    r = g.outcome(ctx, "_execute_typed", sql + end if end else sql, g.new(Source, batches), table, order)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    calls, requests = g.to_list(rec.calls), g.to_list(rec.requests)
    g.ensure_eq("every batch is executed, in order", g.map(calls, lambda c: g.to_list(g.item(c, 1))), g.map(batches, g.to_list))
    g.ensure_eq("the statement", g.map(calls, lambda c: g.item(c, 0)), g.map(batches, lambda b: sql))
    types = g.map(wanted, (lambda c: g.call(ms.sql_to_odbc_type, c.data_type)) if dialect == "mssql" else
                  (lambda c: g.call(oc.sql_to_oracle_type, None, c.data_type)))
    sizes = (lambda s: g.to_list(g.item(s, 0))) if dialect == "mssql" else g.to_list
    if dialect == "mssql":
        # Oracle and others commit each statement (P17)
        from contracts.p14 import all_committed

        all_committed(g, rec.events, batches)
    g.ensure_eq("the types of the columns of the statement, in order", g.map(requests, sizes), g.map(batches, lambda b: types))
    g.cover("executed")


for _d in ("mssql", "oracle"):
    _c = "MSSQLContext" if _d == "mssql" else "OracleContext"
    contract("P11", f"{_d}_execute_typed", [f"pysqlsync/dialect/{_d}/connection.py::{_c}._execute_typed",
                                           f"pysqlsync/dialect/{_d}/connection.py::{_c}._internal_execute_typed", T + "Table.get_columns"],
             covers=("executed",))(lambda g, d=_d: typed(g, d))


# ---------------------------------------------------------------------- Redshift: text of a bulk load
class CopyCursor:
    def __init__(self, texts):
        self.texts = texts

    def execute(self, statement, stream=None):
        self.texts.append((statement, stream.read()))

    def close(self):
        pass


class CopyConnection:
    def __init__(self, texts):
        self.texts = texts

    def cursor(self):
        return CopyCursor(self.texts)


def copied(records, columns=2):
    "What is sent when the records are loaded."
    texts = []
    ctx = object.__new__(rs.RedshiftContext)
    conn = object.__new__(rs.RedshiftConnection)
    conn.native = CopyConnection(texts)
    ctx.connection = conn
    ctx._insert_copy_stream("t", [LocalId(f"c{i}") for i in range(columns)], records)
    return texts


@contract("P11", "redshift_copy_stream", ["pysqlsync/dialect/redshift/connection.py::RedshiftContext._insert_copy_stream"],
          bounded="bytes of a stream: random records; values free of delimiters, see the finding")
def copy_stream(g):
    if g.symbolic:
        g.unsupported("streams of bytes")
    n = g.rng.randint(1, 4)
    records = [tuple(g.choice("value", ["a", "", "\u00e9", "x y", 12, -1, 1.5]) for _ in range(n)) for _ in range(g.rng.randint(1, 4))]
    texts = copied(records, n)
    g.ensure("one statement", len(texts) == 1, texts)
    statement, data = texts[0]
    g.ensure("the columns in order", statement == "COPY t (" + ", ".join(f'"c{i}"' for i in range(n)) + ") FROM STDIN", statement)
    lines = data.decode("utf-8").split("\n")
    g.ensure("every record on a line of its own, in order", lines[-1] == "" and [tuple(x.split("|")) for x in lines[:-1]] == [tuple(map(str, r)) for r in records], data)


@finding("P11")
def redshift_delimiters():
    out = []
    for what, records in (("a value with the delimiter", [("a|b", "c")]), ("a value with a line break", [("a\nb", "c")])):
        _, data = copied(records)[0]
        lines = data.decode("utf-8").split("\n")
        if lines[-1] != "" or [tuple(x.split("|")) for x in lines[:-1]] == records:
            continue
        out.append(what)
    if copied([(None, "c")])[0][1] == copied([("None", "c")])[0][1]:
        out.append("NULL")
    return "Redshift bulk load does not tell apart: " + ", ".join(out) if out else None


# ---------------------------------------------------------------------- the table of a statement
OT = "pysqlsync/formation/object_types.py::"


def local_key(x):
    return x.name.local_id


def in_catalog(g, p, table, id_, there):
    "A catalog in which the table, if it is there, is the one with the name."
    plain = lambda q: g.new(ot.Table, g.new(QualifiedId, None, g.name_text(f"{q}.name")), g.list_of(), primary_key=())
    tables = g.around(f"{p}.t", plain, local_key, g.attr(id_, "local_id"), table if there else None)
    scope = g.force(g.attr(id_, "scope_id"))
    name = "" if scope is None else scope
    own = g.new(ot.Namespace, g.new(LocalId, name), enums=g.list_of(), structs=g.list_of(), tables=tables)
    other = lambda q: g.new(ot.Namespace, g.new(LocalId, g.name_text(f"{q}.name")), enums=g.list_of(), structs=g.list_of(), tables=g.list_of())
    return g.new(ot.Catalog, g.around(f"{p}.n", other, local_key, name, own))


@contract("P11", "table_of_statement", [OT + "Catalog.get_table", OT + "Catalog.get_referenced_table"], covers=("found", "missing", "referenced"), samples=300)
def table_of_statement(g):
    "A name stands for the table with that name in the schema with that name; a column refers to the table that its constraint names."
    from contracts.common import qualified

    id_ = qualified(g, "id")
    there = g.flag("there")
    column = g.new(LocalId, g.name_text("column"))
    refers = there and g.flag("refers")
    cons = g.list_of()
    if refers:
        # to itself: two tables would be two names
        ref = g.new(ot.ConstraintReference, id_, (g.new(LocalId, g.name_text("key")),))
        cons = g.list_of(g.new(ot.ForeignConstraint, g.new(LocalId, g.name_text("fk")), (column,), ref))
    t = g.new(ot.Table, id_, g.list_of(), primary_key=(column,), constraints=cons)
    c = in_catalog(g, "c", t, id_, there)
    r = g.outcome(c, "get_table", id_)
    if not there:
        g.ensure("refused", r.raised and isinstance(r.value, KeyError), r)
        g.cover("missing")
        return
    g.ensure("the table with that name", not r.raised and r.value is t, r)
    g.cover("found")
    r = g.outcome(c, "get_referenced_table", id_, column)
    if refers:
        g.ensure("the table referred to", not r.raised and r.value is t, r)
        g.cover("referenced")
    else:
        g.ensure("refers to none", r.raised and isinstance(r.value, KeyError), r)


@contract("P11", "lookup_table", [OT + "Table.is_lookup_table"], covers=("lookup", "other"), samples=400)
def lookup_table(g):
    "A table looks values up exactly if it has two columns, each of which is the key or unique."
    n = g.choice("columns", [0, 1, 2, 3])
    names = [g.name_text(f"c{i}") for i in range(n)]
    for i, a in enumerate(names):
        for b in names[:i]:
            g.assume(g.Not(g.eq(a, b)))
    ids = [g.new(LocalId, x) for x in names]
    key = g.new(LocalId, g.name_text("key")) if n == 0 or not g.flag("key is a column") else ids[g.choice("key", list(range(n)))]
    cons, unique = [], []
    for i, x in enumerate(ids):
        u = g.flag(f"c{i} unique")
        unique.append(u)
        if u:
            cons.append(g.new(ot.UniqueConstraint, g.new(LocalId, f"u{i}"), (x,)))
    if n == 2 and g.flag("unique together"):
        cons.append(g.new(ot.UniqueConstraint, g.new(LocalId, "both"), tuple(ids)))
    cols = [g.new(ot.Column, x, g.new(SqlDateType), False) for x in ids]
    t = g.new(ot.Table, g.new(QualifiedId, None, "t"), g.list_of(*cols), primary_key=(key,), constraints=g.list_of(*cons))
    r = g.truth(g.method(t, "is_lookup_table"))
    want = n == 2 and all(u or g.truth(g.eq(key.id, x)) for u, x in zip(unique, names))
    g.ensure_eq("a lookup table", r, want)
    g.cover("lookup" if want else "other")
