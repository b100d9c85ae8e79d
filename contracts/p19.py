"""P19 Tab-separated export and import preserve every record."""
from __future__ import annotations

import dataclasses
import datetime
import decimal
import enum
import io
import ipaddress
import typing
import uuid
from typing import Annotated, Any, Literal, Optional, Union

from tsv.helper import Generator

from pysqlsync.data import exchange
from pysqlsync.model import properties
from pysqlsync.model.key_types import PrimaryKey, Unique

from pyvc.contract import contract

X = "pysqlsync/data/exchange.py::"


# ---------------------------------------------------------------------- assumed contracts of the tsv package, of streams
class Text:
    "A line of a file, without the character that terminates it. Assumed: there is none in a line of the tsv package."

    def __init__(self, record, empty):
        self.record = record
        self.empty = empty

    def __len__(self):
        return 0 if self.empty else 1


class Line:
    "A line of a file, with the character that terminates it."

    def __init__(self, text):
        self.text = text

    def __len__(self):
        return 1 + len(self.text)

    def rstrip(self, characters):
        if characters != b"\n":
            raise NotImplementedError(characters)
        return self.text

    def removesuffix(self, suffix):
        if suffix != b"\n":
            raise NotImplementedError(suffix)
        return self.text

    def endswith(self, suffix):
        if suffix != b"\n":
            raise NotImplementedError(suffix)
        return True

    def __getitem__(self, index):
        if index != slice(None, -1):
            raise NotImplementedError(index)
        return self.text


class Reader:
    "A file-like object to read from."

    def __init__(self, lines):
        self.lines = lines

    def readline(self, limit=-1):
        return next(self.lines, b"")


class AsyncReader(Reader):
    async def readline(self, limit=-1):
        return next(self.lines, b"")


class Parser:
    "Assumed contract of tsv.helper.AutoDetectParser: the values of a line, as the types of the columns of the header."

    def __init__(self, types, header):
        self.types = types
        self.columns = header.record

    def parse_line(self, line):
        return ("record", line.record)


class Writer:
    def __init__(self, log):
        self.log = log

    def write(self, data):
        if isinstance(data, Bytes):
            self.log.extend(data.parts)
        else:
            self.log.append(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)


class Bytes:
    "Bytes made of parts."

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, other):
        return Bytes(self.parts + [other])


class LineGenerator:
    "Assumed contract of tsv.helper.Generator: the values of a record make a line."

    def generate_line(self, values):
        return Bytes([("line", values)])


# ---------------------------------------------------------------------- readers
class Outcome:
    pass


class AsyncBytes:
    def __init__(self, data):
        self.stream = io.BytesIO(data)

    async def readline(self, limit=-1):
        return self.stream.readline(limit)


def read_bytes(g, kind, data, types):
    "Reads real data: the columns, their types, the records."
    if kind.startswith("async"):
        reader = exchange.AsyncTextReader(AsyncBytes(data), types)
        g.method(reader, "read_header")
    else:
        reader = exchange.TextReader(io.BytesIO(data), types)
    rows = g.method(reader, "records" if kind.endswith("records()") else "read_records")
    return reader.columns, reader.field_types, list(rows)


def reading(g, kind):
    if not g.symbolic:
        types = {"x": int, "y": str, "z": bool}
        header = g.choice("columns", [("x",), ("y",), ("x", "y"), ("y", "x", "z")])
        make = {"x": lambda: g.rng.randint(-9, 9), "y": lambda: g.rng.choice(["", "", "a", "b\tc", "d\n"]), "z": lambda: g.rng.random() < 0.5}
        rows = g.note("rows", [tuple(make[c]() for c in header) for _ in range(g.rng.randint(0, 5))])
        lines = [Generator().generate_line(r) for r in rows]
        data = b"\n".join(["\t".join(header).encode(), *lines])
        if not rows or lines[-1] == b"" or g.bool("terminated"):
            data += b"\n"
        columns, found, got = read_bytes(g, kind, data, types)
        g.ensure_eq("the columns of the header", columns, header)
        g.ensure_eq("their types", found, tuple(types[c] for c in header))
        g.ensure_eq("every record, in order", got, rows)
        g.cover("read")
        return
    header = g.choice("columns", [("x",), ("x", "y"), ("y", "x", "z")])
    types = {"x": int, "y": str, "z": bool}
    records = g.seq("r", lambda p: g.new(Text, g.opaque(f"{p}.record"), g.bool(f"{p}.empty")))
    lines = [g.new(Line, g.new(Text, header, False)), *g.items(g.map(records, lambda t: g.new(Line, t)))]
    # some file-like objects leave out the last terminator
    g.global_value(exchange, "AutoDetectParser", Parser)
    want = g.map(records, lambda t: ("record", t.record))
    if kind.startswith("async"):
        stream = g.new(AsyncReader, g.call(iter, g.list_of(*lines)))
        reader = g.new(exchange.AsyncTextReader, stream, types)
        g.method(reader, "read_header")
    else:
        stream = g.new(Reader, g.call(iter, g.list_of(*lines)))
        reader = g.new(exchange.TextReader, stream, types)
    g.ensure_eq("the columns of the header", g.attr(reader, "columns"), header)
    g.ensure_eq("their types", reader.field_types, tuple(types[c] for c in header))
    if kind.endswith("records()"):
        r = g.to_list(g.method(reader, "records"))
    else:
        r = g.method(reader, "read_records")
    g.ensure_eq("every record, in order", r, want)
    g.cover("read")


for _k, _n, _f in (("read", "read_records", "TextReader.read_records"), ("records()", "records", "TextReader.records"),
                   ("async read", "async_read_records", "AsyncTextReader.read_records"), ("async records()", "async_records", "AsyncTextReader.records")):
    contract("P19", _n, [X + _f, X + _f.split(".")[0] + ".__init__"], covers=("read",))(lambda g, k=_k: reading(g, k))


# ---------------------------------------------------------------------- writer
@dataclasses.dataclass
class Member:
    "A field of a data-class."

    name: str
    type: Any
    mapped: bool = True


class Entity:
    pass


def members(g):
    return g.seq("f", lambda p: g.new(Member, g.name_text(f"{p}.name"), g.opaque(f"{p}.type"), g.bool(f"{p}.mapped")), lambda f: f.name)


def mapping_of(g, fields):
    "None, or a mapping of some of the fields, in any order."
    if g.choice("mapping", ["none", "given"]) == "none":
        return None, g.map(fields, lambda f: (f.name, f.name))
    pairs = g.seq("m", lambda p: (g.name_text(f"{p}.field"), g.name_text(f"{p}.column")), lambda m: m[0])
    return g.as_dict(pairs), pairs


@contract("P19", "write", [X + "TextWriter.__init__", X + "TextWriter.write_objects", X + "_get_extractor_fn"], covers=("written",))
def write(g):
    """
    The mapped names make the header; the values of the fields of each object, in the order of the header, make a line.
    """
    if not g.symbolic:
        return write_native(g)
    import strong_typing.inspection as si

    fields = members(g)
    g.override(si.dataclass_fields, lambda e, cls: fields)
    g.global_value(exchange, "Generator", LineGenerator)
    log = g.list_of()
    mapping, pairs = mapping_of(g, fields)
    w = g.new(exchange.TextWriter, g.new(Writer, log), Entity, mapping)
    head = g.items(log)
    entities = g.seq("o", lambda p: g.opaque(p))
    g.method(w, "write_objects", entities)
    out = g.items(log)
    g.ensure_eq("the header is a line", head[-1] if len(head) > 1 else None, b"\n")
    parts = [x for x in head[:-1]]
    g.ensure("the names are joined by tabs", len(parts) == 1 and g.joined(parts[0])[0] == b"\t", parts)
    if len(parts) == 1:
        g.ensure_eq("the header has the mapped names, in order", g.joined(parts[0])[1],
                    g.map(pairs, lambda m: g.method(g.item(m, 1), "encode", "utf-8")))
    g.ensure_eq("a line for each object, in order", g.list_of(*out[len(head):]), g.flat(g.map(entities, lambda o: g.list_of(
        ("line", g.to_tuple(g.map(pairs, lambda m: g.call(getattr, o, g.item(m, 0))))), b"\n"))))
    g.cover("written")


COLORS = enum.Enum("COLORS", {"red": "red", "blue": "b\\l\tue"})


@dataclasses.dataclass
class Target:
    id: PrimaryKey[int]
    other: str


@dataclasses.dataclass
class Keyed:
    key: PrimaryKey[Annotated[str, "text"]]
    value: int


def random_text(g):
    return "".join(g.rng.choice("ab\\\t\n\r\0\b\f\v'\"N0trn é漢\u2028\x85\U0001F600") for _ in range(g.rng.choice([0, 0, 1, 1, 2, 3, 5, 9])))


def when(g):
    return datetime.datetime(g.rng.randint(1, 9999), g.rng.randint(1, 12), g.rng.randint(1, 28), g.rng.randrange(24), g.rng.randrange(60),
                             g.rng.randrange(60), g.rng.choice([0, 1, 500000, g.rng.randrange(10 ** 6)]))


# type of a field → (type of the column, a value, what is read back)
FIELDS = [
    (bool, bool, lambda g: g.rng.random() < 0.5),
    (int, int, lambda g: g.rng.choice([0, -1, 2 ** 63, -(2 ** 63), g.rng.randint(-10 ** 30, 10 ** 30)])),
    (float, float, lambda g: g.rng.choice([0.0, 5e-324, g.rng.uniform(-1e6, 1e6), g.rng.uniform(-1, 1) * 10.0 ** g.rng.randint(-300, 300)])),
    (str, str, random_text),
    (Annotated[str, "length"], str, random_text),
    (Unique[str], str, random_text),
    (bytes, bytes, lambda g: bytes(g.rng.choice([0, 8, 9, 10, 11, 12, 13, 92, 78, 48, 255, 128, 65]) for _ in range(g.rng.choice([0, 1, 2, 3, 6])))),
    (datetime.datetime, datetime.datetime, when),
    (datetime.date, datetime.date, lambda g: when(g).date()),
    (datetime.time, datetime.time, lambda g: when(g).time()),
    (decimal.Decimal, decimal.Decimal, lambda g: decimal.Decimal(g.rng.randint(-10 ** 9, 10 ** 9)).scaleb(g.rng.randint(-20, 20))),
    (uuid.UUID, uuid.UUID, lambda g: uuid.UUID(int=g.rng.getrandbits(128))),
    (ipaddress.IPv4Address, ipaddress.IPv4Address, lambda g: ipaddress.IPv4Address(g.rng.getrandbits(32))),
    (ipaddress.IPv6Address, ipaddress.IPv6Address, lambda g: ipaddress.IPv6Address(g.rng.getrandbits(128))),
    (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], Union[ipaddress.IPv4Address, ipaddress.IPv6Address],
     lambda g: g.rng.choice([ipaddress.IPv4Address, ipaddress.IPv6Address])(g.rng.getrandbits(32))),
    (COLORS, str, lambda g: g.rng.choice(list(COLORS))),
    (typing.Literal["x", "y\t"], str, lambda g: g.rng.choice(["x", "y\t"])),
    (list[str], list, lambda g: [random_text(g) for _ in range(g.rng.randint(0, 3))]),
    (dict[str, str], dict, lambda g: {random_text(g): random_text(g) for _ in range(g.rng.randint(0, 2))}),
    (Target, int, lambda g: g.rng.randint(-5, 5)),
    (Keyed, str, random_text),
]


def random_class(g):
    names = g.rng.sample(["id", "name", "value", "Étage", "x_1", "columns", "type"], g.rng.randint(1, 5))
    kinds = [g.rng.choice(FIELDS) for _ in names]
    optional = [g.rng.random() < 0.3 for _ in names]
    cls = dataclasses.make_dataclass("Row", [(n, Optional[k[0]] if o else k[0]) for n, k, o in zip(names, kinds, optional)])
    row = lambda: [None if o and g.rng.random() < 0.4 else k[2](g) for k, o in zip(kinds, optional)]
    rows = [row() for _ in range(g.rng.choice([0, 1, 1, 3, 20]))]
    mapping = None
    if g.rng.random() < 0.6:
        some = g.rng.sample(names, g.rng.randint(1, len(names)))
        mapping = {n: g.rng.choice([n, f"{n}.x", f"key of {n}", "é" + n, f" {n}", f"{n} ", f"({n})'\""]) for n in some}
    g.note("fields", {n: (k[0], o) for n, k, o in zip(names, kinds, optional)})
    g.note("mapping", mapping)
    g.note("rows", rows)
    return cls, names, [k[1] for k in kinds], rows, mapping


def plain(v):
    return v.value if isinstance(v, enum.Enum) else v


def write_native(g):
    cls, names, types, rows, mapping = random_class(g)
    columns = {n: n for n in names} if mapping is None else mapping
    stream = io.BytesIO()
    w = exchange.TextWriter(stream, cls, mapping)
    cut = g.rng.randint(0, len(rows))
    w.write_objects([cls(*r) for r in rows[:cut]])
    w.write_objects([cls(*r) for r in rows[cut:]])
    lines = [Generator().generate_line(tuple(r[names.index(n)] for n in columns)) for r in rows]
    g.ensure_eq("the header and a line for each object", stream.getvalue(),
                b"".join(x + b"\n" for x in ["\t".join(columns.values()).encode("utf-8"), *lines]))
    g.cover("written")


@contract("P19", "types", [X + "fields_to_types"], covers=("types",), samples=600)
def types(g):
    "The column of each field that is mapped, of the type of its values or of the key that it refers to."
    if not g.symbolic:
        cls, names, kinds, _, mapping = random_class(g)
        columns = {n: n for n in names} if mapping is None else mapping
        r = exchange.fields_to_types(cls, mapping)
        g.ensure_eq("the type of each column", r, {columns[n]: k for n, k in zip(names, kinds) if n in columns})
        g.cover("types")
        return
    import strong_typing.inspection as si
    from pysqlsync.formation import inspection

    fields = members(g)
    g.override(si.dataclass_fields, lambda e, cls: fields)
    g.override(inspection.reference_to_key, lambda e, t, cls: g.opaque_of("key", t))
    g.override(properties.get_field_properties, lambda e, t: Properties(t))
    g.override(Properties.__dict__["tsv_type"].fget, lambda e, o: g.opaque_of("tsv", o.type))
    columns = None
    chosen = fields
    if g.choice("mapping", ["none", "given"]) == "given":
        chosen = g.filter(fields, lambda f: f.mapped)
        columns = g.as_dict(g.map(chosen, lambda f: (f.name, g.text_of("column", f.name))))
    r = g.call(exchange.fields_to_types, Entity, columns)
    kind = lambda f: g.opaque_of("tsv", g.opaque_of("key", f.type))
    g.ensure_eq("the type of each column, by its name", g.to_list(g.method(r, "items")), g.map(chosen, lambda f: (
        f.name if columns is None else g.text_of("column", f.name), kind(f))))
    g.cover("types")


class Properties:
    def __init__(self, type):
        self.type = type

    @property
    def tsv_type(self):
        return self.type


@contract("P19", "tsv_type", ["pysqlsync/model/properties.py::tsv_type", "pysqlsync/formation/inspection.py::reference_to_key"],
          bounded="types of the supported kinds, as themselves, optional, annotated: type inspection runs natively", covers=("type", "refused"), samples=200)
def tsv_type(g):
    if g.symbolic:
        g.unsupported("type inspection")
    from pysqlsync.formation.inspection import reference_to_key

    t, want, _ = g.choice("type", FIELDS)
    for x in (t, Annotated[t, "a"], Optional[t], Optional[Annotated[t, "a"]], Annotated[Optional[t], "a"]):
        key = reference_to_key(x, Target)
        g.ensure_eq("the type of the column", properties.get_field_properties(key).tsv_type, want)
        g.ensure_eq("optional if the field is", properties.get_field_properties(key).nullable, x not in (t, Annotated[t, "a"]))
    if g.bool("several"):
        members = g.rng.sample([(int, int), (str, str), (KindOf, str), (uuid.UUID, uuid.UUID), (bool, bool), (V4, V4), (V6, V6), (Annotated[str, "a"], str), (float, float)], g.rng.randint(2, 3))
        kinds = {k for _, k in members}
        t = Union[tuple(m for m, _ in members)]
        try:
            got = properties.tsv_type(t)
        except TypeError:
            g.ensure("only values of several kinds are refused", len(kinds) > 1 and kinds != {V4, V6}, t)
            g.cover("refused")
        else:
            g.ensure("one kind of value in a column, or addresses of either version", got == t if kinds == {V4, V6} else {got} == kinds, (t, got))
        values = g.rng.sample(["a", "b", 1, 2, True], 2)
        try:
            got = properties.tsv_type(Literal[tuple(values)])
        except TypeError:
            g.ensure("literals of several kinds are refused", len({type(v) for v in values}) > 1, values)
        else:
            g.ensure("the kind of the literals", {type(v) for v in values} == {got}, (values, got))
    g.cover("type")


class KindOf(enum.Enum):
    A = "a"


V4, V6 = ipaddress.IPv4Address, ipaddress.IPv6Address


@contract("P19", "round_trip", [X + "TextWriter", X + "TextReader", X + "AsyncTextReader", X + "fields_to_types"],
          bounded="the assumed contracts of the tsv package, against real data: random classes, mappings and values", covers=("read",), samples=1500)
def round_trip(g):
    if g.symbolic:
        g.unsupported("parsing in native code")
    cls, names, kinds, rows, mapping = random_class(g)
    columns = {n: n for n in names} if mapping is None else mapping
    stream = io.BytesIO()
    exchange.TextWriter(stream, cls, mapping).write_objects([cls(*r) for r in rows])
    types = exchange.fields_to_types(cls, mapping)
    want = [tuple(plain(r[names.index(n)]) for n in columns) for r in rows]
    for kind in ("read", "records()", "async read", "async records()"):
        head, found, got = read_bytes(g, kind, stream.getvalue(), types)
        g.ensure_eq(f"{kind}: the columns", head, tuple(columns.values()))
        g.ensure_eq(f"{kind}: the same values", got, want)
        g.ensure(f"{kind}: of the same types", all(type(a) is type(b) for r, s in zip(got, want) for a, b in zip(r, s)), got)
    g.cover("read")
