"""P20 Entity classes map to tables that express the declared constraints."""
from __future__ import annotations

import copy
import dataclasses
import datetime
import decimal
import enum
import importlib
import ipaddress
import itertools
import sys
import types
import typing
import uuid
from typing import Annotated, Any, Optional, Union

from strong_typing.auxiliary import MaxLength, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
from strong_typing.core import JsonType

from pysqlsync.base import GeneratorOptions
from pysqlsync.formation import object_types as ot
from pysqlsync.formation import py_to_sql as ps
from pysqlsync.model import data_types as dt
from pysqlsync.model.id_types import GlobalId, LocalId, PrefixedId, QualifiedId
from pysqlsync.model.key_types import DEFAULT, DefaultTag, Identity, IdentityTag, PrimaryKey, PrimaryKeyTag, Unique, UniqueTag

import strong_typing.auxiliary as sa

from pyvc.contract import contract, finding

C = "pysqlsync/formation/py_to_sql.py::"
D = C + "DataclassConverter."

# ---------------------------------------------------------------------- type expressions
class Expression:
    "A type expression: of a class, a union, or annotated. Assumed: strong_typing.inspection tells them apart."


class Union_(Expression):
    def __init__(self, members):
        self.members = members


class Annotated_(Expression):
    def __init__(self, inner, metadata):
        self.inner = inner
        self.__metadata__ = metadata


class Plain(Expression):
    "A class."


class Maker:
    "typing.Union, typing.Annotated."

    def __init__(self, make):
        self.make = make

    def __getitem__(self, items):
        return self.make(items)


NONE = type(None)


def make_union(members):
    return members[0] if len(members) == 1 else Union_(list(members))


def make_annotated(items):
    return Annotated_(items[0], items[1:])


def unwrap_annotated(t):
    return t.inner if type(t) is Annotated_ else t


def is_union(t):
    t = unwrap_annotated(t)
    return type(t) is Union_ and (len(t.members) > 2 or not any(m is NONE for m in t.members))


def is_optional(t):
    t = unwrap_annotated(t)
    return type(t) is Union_ and any(m is NONE for m in t.members)


def unwrap_union(t):
    if type(t) is not Union_:
        raise TypeError(t)
    return tuple(t.members)


def unwrap_optional(t):
    inner = unwrap_annotated(t)
    r = make_union([m for m in inner.members if m is not NONE])
    return Annotated_(r, t.__metadata__) if type(t) is Annotated_ else r


def type_expressions(g):
    import strong_typing.inspection as si
    from pysqlsync.model import properties

    for f, h in ((si.unwrap_annotated_type, unwrap_annotated), (si.is_type_union, is_union), (si.is_type_optional, is_optional),
                 (si.unwrap_union_types, unwrap_union), (si.unwrap_optional_type, unwrap_optional)):
        g.override(f, lambda e, t, h=h: g.call(h, t))
    g.global_value(properties, "Union", Maker(make_union))
    g.global_value(properties, "Annotated", Maker(make_annotated))


def tagged(metadata, tag):
    return any(isinstance(m, tag) for m in metadata)


def others(metadata):
    return tuple(m for m in metadata if not isinstance(m, (PrimaryKeyTag, IdentityTag, UniqueTag)))


def native_metadata(g):
    return [g.rng.choice([PrimaryKeyTag(), IdentityTag(), UniqueTag(), MaxLength(7), "other"]) for _ in range(g.rng.choice([0, 1, 1, 2, 4]))]


@contract("P20", "properties", ["pysqlsync/model/properties.py::get_field_properties", "pysqlsync/model/properties.py::_get_field_metadata",
                                "pysqlsync/model/properties.py::is_constraint", "pysqlsync/model/properties.py::FieldProperties.field_type",
                                *("pysqlsync/model/properties.py::" + n for n in ("is_primary_key_type", "is_identity_type", "is_unique_type"))],
          covers=("optional", "default", "annotated", "plain"), assumes=["strong_typing.inspection tells unions, optional and annotated types apart"])
def properties_of_field(g):
    "What a type expression declares: optional, primary key, identity, unique; and the type of the values."
    from pysqlsync.model import properties

    optional, default = g.flag("optional"), g.flag("default")
    n = g.choice("members", [1, 2, 3])
    order = g.choice("order", [0, 1])
    if g.symbolic:
        type_expressions(g)
        outer = g.seq("a", lambda p: g.opaque(p)) if g.flag("outer") else None
        inner = g.seq("b", lambda p: g.opaque(p)) if g.flag("inner") else None
        members = [Plain() for i in range(n)]
        core = make_union(members)
        t = Annotated_(core, g.to_tuple(inner)) if inner is not None else core
        parts = [t] if n == 1 or inner is not None else members
        parts = ([NONE] if optional and order else []) + ([DefaultTag] if default else []) + parts + ([NONE] if optional and not order else [])
        t = make_union(parts)
        if outer is not None:
            if type(t) is Annotated_:
                t = Annotated_(t.inner, g.to_tuple(g.flat(g.list_of(g.to_list(outer), g.to_list(inner)))))
            else:
                t = Annotated_(t, g.to_tuple(outer))
        metadata = g.flat(g.list_of(*[g.to_list(x) for x in (outer, inner) if x is not None]))
        if n > 1 and inner is None:
            core = Union_([m for m in parts if m is not NONE and m is not DefaultTag])
    else:
        outer = native_metadata(g) if g.flag("outer") else None
        inner = native_metadata(g) if g.flag("inner") else None
        members = g.rng.sample([int, str, float, bytes, bool], n)
        core = Union[tuple(members)]
        t = Annotated[(core, *inner)] if inner else core
        parts = ([None] if optional and order else []) + ([DefaultTag] if default else []) + [t] + ([None] if optional and not order else [])
        t = Union[tuple(parts)]
        flat = typing.get_origin(t) is Annotated
        if outer:
            t = Annotated[(t, *outer)]
        metadata = (inner or []) + (outer or []) if flat else (outer or []) + (inner or [])
        g.note("type", t)
    r = g.call(properties.get_field_properties, t)
    if not g.symbolic:
        g.ensure_eq("the type of the values", r.plain_type, core)
    elif type(core) is Union_:
        g.ensure_eq("the types of the values", g.to_tuple(r.plain_type.members) if type(r.plain_type) is Union_ else r.plain_type, g.to_tuple(core.members))
    else:
        g.ensure("the type of the values", r.plain_type is core, r.plain_type)
    g.ensure_eq("nullable exactly if optional", r.nullable, optional)
    for name, tag in (("primary", PrimaryKeyTag), ("identity", IdentityTag), ("unique", UniqueTag)):
        g.ensure_eq(f"{name} exactly if tagged", g.attr(r, f"is_{name}"), g.call(tagged, metadata, tag))
        mark = {"primary": "is_primary_key_type", "identity": "is_identity_type", "unique": "is_unique_type"}[name]
        g.ensure_eq(f"{mark} tells the same", g.call(getattr(properties, mark), t), g.call(tagged, metadata, tag))
    g.ensure_eq("other annotations are kept", r.metadata, g.call(others, metadata))
    kept = g.call(others, metadata)
    t = g.attr(r, "field_type")
    if not g.symbolic:
        g.ensure_eq("the type without constraints", t, Annotated[(core, *kept)] if kept else core)
    elif type(t) is Annotated_:
        g.ensure("the annotated type without constraints", t.inner is r.plain_type)
        g.ensure_eq("the annotations without constraints", g.to_tuple(t.__metadata__), kept)
    else:
        g.ensure("the type without constraints", t is r.plain_type)
        g.ensure_eq("there are no annotations", kept, ())
    g.cover("optional" if optional else "plain")
    if default:
        g.cover("default")
    if outer is not None or inner is not None:
        g.cover("annotated")


# ---------------------------------------------------------------------- random data-classes
DIALECTS = ["converter", "delta", "mssql", "mysql", "oracle", "postgresql", "redshift", "snowflake", "trino"]
COUNT = itertools.count()
BASIC = {
    bool: dt.SqlBooleanType(), int: dt.SqlIntegerType(8), float: dt.SqlDoubleType(), str: dt.SqlVariableCharacterType(),
    int8: dt.SqlIntegerType(2), int16: dt.SqlIntegerType(2), int32: dt.SqlIntegerType(4), int64: dt.SqlIntegerType(8),
    float32: dt.SqlRealType(), float64: dt.SqlDoubleType(), decimal.Decimal: dt.SqlDecimalType(), datetime.datetime: dt.SqlTimestampType(),
    datetime.date: dt.SqlDateType(), datetime.time: dt.SqlTimeType(), uuid.UUID: dt.SqlUuidType(),
    uint8: dt.SqlIntegerType(2), uint16: dt.SqlIntegerType(2), uint32: dt.SqlIntegerType(4), uint64: dt.SqlIntegerType(8),
}
DEFAULTS = {
    bool: [True, False], int: [0, 1, -5], float: [0.0, 1.5], str: ["", "it's", "x"], int16: [0, 7], int64: [-1], decimal.Decimal: [decimal.Decimal("1.50")],
    datetime.datetime: [datetime.datetime(2020, 1, 2, 3, 4, 5)], datetime.date: [datetime.date(2020, 1, 2)], datetime.time: [datetime.time(1, 2, 3)],
}
ZERO = {bool: "FALSE", int: "0", float: "0.0", str: "''", decimal.Decimal: "0", datetime.datetime: "'0001-01-01 00:00:00'",
        datetime.date: "'0001-01-01'", datetime.time: "'00:00:00'"}


def literal(v):
    "The constant for a value."
    if isinstance(v, enum.Enum):
        v = v.value
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return "'" + v.replace("'", "''") + "'"
    if isinstance(v, datetime.datetime):
        return "'" + v.isoformat(sep=" ") + "'"
    if isinstance(v, (datetime.date, datetime.time)):
        return "'" + v.isoformat() + "'"
    return str(v)


@dataclasses.dataclass
class Item:
    "What is declared of a field."

    name: str
    kind: str
    type: Any
    nullable: bool = False
    unique: bool = False
    identity: bool = False
    primary: bool = False
    default: Any = dataclasses.field(default_factory=lambda: dataclasses.MISSING)
    comment: Any = None
    value: Any = None  # the type of values, of a plain field


class World:
    "Random data-classes, in modules of their own."

    def __init__(self, g):
        self.g = g
        self.modules = []
        self.classes = {}
        self.fields = {}

    def module(self):
        m = types.ModuleType(f"verif_p20_{next(COUNT)}")
        sys.modules[m.__name__] = m
        self.modules.append(m)
        return m

    def close(self):
        for m in self.modules:
            del sys.modules[m.__name__]

    def entity(self, name, module, fields, comment):
        summary = f"Class {name}." if len(fields) % 2 else f"Class {name}.\n\nThe long story."
        doc = summary + "".join(f"\n\n:param {f.name}: {f.comment}" if i == 0 else f"\n:param {f.name}: {f.comment}"
                                         for i, f in enumerate([f for f in fields if f.comment])) if comment else None
        ordered = [f for f in fields if f.default is dataclasses.MISSING] + [f for f in fields if f.default is not dataclasses.MISSING]
        if not comment:
            for f in ordered:
                f.comment = None
        cls = dataclasses.make_dataclass(name, [
            (f.name, f.type) if f.default is dataclasses.MISSING else (f.name, f.type, dataclasses.field(default=f.default)) for f in ordered], module=module.__name__)
        cls.__doc__ = doc
        setattr(module, name, cls)
        self.classes[name] = cls
        self.fields[name] = ordered
        return cls


def wrap(g, f, core):
    "The type of a field, out of the type of its values and of what is declared."
    t = core
    if f.primary:
        t = Annotated[t, PrimaryKeyTag()]
    if f.identity:
        t = PrimaryKey[Identity[core]] if f.primary else Identity[core]
    if f.unique and g.rng.random() < 0.5:
        t = Unique[t]
        if f.nullable:
            return Optional[t]
        return t
    if f.nullable:
        t = Optional[t]
    if f.unique:
        t = Unique[t]
    return t


def random_world(g, w, entities=3):
    rng = g.rng
    modules = [w.module() for _ in range(rng.choice([1, 1, 2]))]
    place = lambda: rng.choice(modules)
    made_enums = []
    for i in range(2):
        m = place()
        e = enum.Enum(f"Color{i}", {f"m{j}": (f"v{i}'{j}" if j == 1 else f"v{i}{j}") for j in range(rng.choice([2, 3]))}, module=m.__name__)
        setattr(m, e.__name__, e)
        made_enums.append(e)
    m = place()
    struct = dataclasses.make_dataclass("Point", [("x", int), ("y", Optional[str])], module=m.__name__)
    setattr(m, "Point", struct)
    names = [f"Entity{i}" for i in range(entities)]
    rng.shuffle(names)
    keys = {n: rng.choice([int, int64, Annotated[str, MaxLength(20)], str, uuid.UUID]) for n in names}
    made = []
    for n in names:
        m = place()
        fields = [Item("id" if rng.random() < 0.7 else f"key{n[-1]}", "plain", None, primary=True, identity=keys[n] in (int, int64) and rng.random() < 0.5, value=keys[n])]
        fields[0].type = wrap(g, fields[0], keys[n])
        for i in range(rng.randint(0, 5)):
            kind = rng.choice(["plain", "plain", "plain", "enum", "entity", "self", "union", "list", "entities", "enums", "struct", "extensible", "literal", "length"])
            f = Item(f"f{i}", kind, None, nullable=rng.random() < 0.3)
            if kind in ("entity", "union", "entities") and not made:
                kind = f.kind = "plain"
            f.unique = rng.random() < 0.2 and kind not in ("entities", "enums")
            if rng.random() < 0.5:
                f.comment = rng.choice(["A comment.", "It's a comment", "x"])
            if kind == "plain":
                t = rng.choice(list(BASIC))
                f.value = t
                if t in DEFAULTS and rng.random() < 0.4:
                    f.default = rng.choice(DEFAULTS[t])
            elif kind == "length":
                t = f.value = Annotated[str, MaxLength(rng.randint(1, 99))]
            elif kind == "enum":
                t = f.value = rng.choice(made_enums)
                if rng.random() < 0.3:
                    f.default = rng.choice(list(t))
            elif kind == "extensible":
                f.value = rng.choice(made_enums)
                t = Union[f.value, str]
                f.unique = False
            elif kind == "entity":
                t = f.value = w.classes[rng.choice(made)]
            elif kind == "self":
                t, f.value = typing.ForwardRef(n), n
                t = n if not (f.nullable or f.unique) else t
            elif kind == "union":
                some = [x for x in made if keys[x] == keys[made[0]]]
                if len(some) < 2:
                    f.kind, t = "entity", w.classes[made[0]]
                    f.value = t
                else:
                    t = Union[tuple(w.classes[x] for x in some)]
                    f.value = [w.classes[x] for x in some]
            elif kind == "list":
                f.value = rng.choice([int, str, bool])
                t = rng.choice([list, set])[f.value]
            elif kind == "entities":
                f.value = w.classes[rng.choice(made)]
                t = rng.choice([list, set])[f.value]
            elif kind == "enums":
                f.value = rng.choice(made_enums)
                t = rng.choice([list, set])[f.value]
            elif kind == "struct":
                t = f.value = struct
            elif kind == "literal":
                t = typing.Literal["a", "bc"]
            if f.nullable and f.default is dataclasses.MISSING and rng.random() < 0.3:
                f.default = None
            f.type = wrap(g, f, t)
            fields.append(f)
        w.entity(n, m, fields, rng.random() < 0.6)
        made.append(n)
    g.note("classes", {n: [(f.name, f.type, f.default) for f in w.fields[n]] for n in made})
    return modules, made


def make_converter(g, modules):
    rng = g.rng
    dialect = rng.choice(DIALECTS)
    namespaces = {m: f"ns{i}" for i, m in enumerate(modules)}
    if len(modules) == 1 and rng.random() < 0.3:
        namespaces = {modules[0]: None}
    mode = dict(enum_mode=rng.choice([None, *ps.EnumMode]), struct_mode=rng.choice([None, *ps.StructMode]), array_mode=rng.choice([None, *ps.ArrayMode]))
    common = dict(foreign_constraints=rng.random() < 0.8, initialize_tables=rng.random() < 0.3, auto_default=rng.random() < 0.4)
    g.note("dialect", dialect)
    g.note("options", {**mode, **common})
    if dialect == "converter":
        return dialect, ps.DataclassConverter(options=ps.DataclassConverterOptions(
            **{k: v for k, v in mode.items() if v is not None}, **common, qualified_names=rng.random() < 0.5, unique_constraint_names=rng.random() < 0.5,
            check_constraints=rng.random() < 0.7, namespaces=ps.NamespaceMapping(namespaces)))
    m = importlib.import_module(f"pysqlsync.dialect.{dialect}.generator")
    cls = next(v for k, v in vars(m).items() if k.endswith("Generator") and isinstance(v, type) and v.__module__ == m.__name__)
    try:
        return dialect, cls(GeneratorOptions(**mode, **common, namespaces=namespaces)).converter
    except ps.__dict__.get("FormationError", Exception):
        return dialect, None  # the mode is refused


def join_table(f, o):
    "True if values are in a table of their own."
    return f.kind == "entities" or o.array_mode is ps.ArrayMode.RELATION and f.kind in ("list", "enums")


def value_type(o, t):
    "The type of the column for values of a basic type."
    if t in o.substitutions:
        return o.substitutions[t]
    if typing.get_origin(t) is Annotated and t not in BASIC:
        base, *meta = typing.get_args(t)
        r = copy.deepcopy(value_type(o, base))
        r.limit = meta[0].value
        return r
    if t is bool and bool in o.substitutions:
        return o.substitutions[bool]
    return BASIC[t]


def enum_type(o, e, name):
    if o.enum_mode is ps.EnumMode.TYPE:
        return dt.SqlUserDefinedType(name)
    if o.enum_mode is ps.EnumMode.INLINE:
        return dt.SqlEnumType([m.value for m in e])
    if o.enum_mode is ps.EnumMode.RELATION:
        return value_type(o, int32)
    return value_type(o, Annotated[str, MaxLength(64)])


def key_of(w, n):
    return next(f for f in w.fields[n] if f.primary)


@contract("P20", "classes", [C + "DataclassConverter"], bounded="random data-classes of all supported kinds of fields, in each dialect and mode",
          covers=("table", "unique", "foreign", "join"), samples=2500)
def classes(g):
    "The tables of random data-classes, against their declarations."
    if g.symbolic:
        g.unsupported("data-classes are made by native code")
    w = World(g)
    try:
        random_classes(g, w)
    finally:
        w.close()


def random_classes(g, w):
    modules, made = random_world(g, w)
    dialect, c = make_converter(g, modules)
    if c is None:
        return
    o = c.options
    for n in made:
        for f in w.fields[n]:
            # not supported
            if f.kind == "list" and o.array_mode is ps.ArrayMode.RELATION:
                return
            if f.kind == "enums" and o.array_mode is ps.ArrayMode.RELATION and o.enum_mode is not ps.EnumMode.RELATION:
                return
    before = copy.deepcopy(o.substitutions)
    chosen = [w.classes[n] for n in made]
    catalog = c.dataclasses_to_catalog(chosen)
    again = c.dataclasses_to_catalog(chosen)
    g.ensure("the same definitions each time", catalog == again and repr(catalog) == repr(again))
    g.ensure_eq("substitutions are kept", o.substitutions, before)
    tables = {str(t.name): t for ns in catalog.namespaces.values() for t in ns.tables.values()}
    ident = lambda t: c.create_qualified_id(t.__module__, t.__name__)
    for n in made:
        cls = w.classes[n]
        table = tables.get(str(ident(cls)))
        g.ensure("there is a table for the class", table is not None, (n, str(ident(cls)), sorted(tables)))
        if table is None:
            continue
        g.ensure_eq("the same table on its own", c.dataclass_to_table(cls), table)
        check_table(g, w, c, table, n, ident)
        for f in w.fields[n]:
            if f.kind == "enum" and o.enum_mode is ps.EnumMode.TYPE:
                name = str(QualifiedId(o.namespaces.get(f.value.__module__), f.value.__name__))
                found = {str(e.name): e.values for ns in catalog.namespaces.values() for e in ns.enums.values()}
                g.ensure_eq("the type of enumerated values is defined", found.get(name), [m.value for m in f.value])
            if f.kind == "struct" and o.struct_mode is ps.StructMode.TYPE:
                found = [str(e.name) for ns in catalog.namespaces.values() for e in ns.structs.values()]
                g.ensure("the composite type is defined", str(ident(f.value)) in found, (f, found))
            if f.kind == "extensible" or f.kind in ("enum", "enums") and o.enum_mode is ps.EnumMode.RELATION:
                t = tables.get(str(ident(f.value)))
                g.ensure("there is a lookup table", t is not None, f)
                if t is not None:
                    g.ensure_eq("its columns", [(x.name.id, x.nullable, x.identity) for x in t.columns.values()], [("id", False, True), ("value", False, False)])
                    g.ensure_eq("its key", t.primary_key, (LocalId("id"),))
                    g.ensure_eq("its values are unique", [k.unique_columns for k in t.constraints.values()], [(LocalId("value"),)])
                    g.ensure_eq("its rows", getattr(t, "values", None), [m.value for m in f.value] if o.initialize_tables else None)
            if join_table(f, o):
                check_join(g, w, c, tables, n, f, ident)
                g.cover("join")
    g.cover("table")


def reference(w, ident, t):
    return ot.ConstraintReference(ident(t), (LocalId(key_of(w, t.__name__).name),))


def class_description(cls):
    "The description of a class: what comes before its parameters."
    return cls.__doc__.split(":param ")[0].rstrip() if cls.__doc__ else None


def check_table(g, w, c, table, n, ident):
    o = c.options
    fields = [f for f in w.fields[n] if not join_table(f, o)]
    g.ensure_eq("a column for each stored field, in order", [x.name.id for x in table.columns.values()], [f.name for f in fields])
    g.ensure_eq("the comment of the table", table.description, class_description(w.classes[n]))
    g.ensure_eq("the primary key", table.primary_key, (LocalId(key_of(w, n).name),))
    unique, foreign = [], []
    for f, x in zip(fields, table.columns.values()):
        g.ensure_eq("nullable exactly if optional", x.nullable, f.nullable)
        g.ensure_eq("the identity", x.identity, f.identity)
        g.ensure_eq("the comment", x.description, f.comment)
        lookup = f.kind == "extensible" or f.kind == "enum" and o.enum_mode is ps.EnumMode.RELATION
        if f.default is not dataclasses.MISSING and f.default is not None:
            g.ensure_eq("the declared default", x.default, None if lookup else literal(f.default))
        elif not o.auto_default or f.nullable or f.primary or f.identity or lookup:
            g.ensure_eq("no default", x.default, None)
        elif f.kind == "plain" and f.value in ZERO:
            g.ensure_eq("an automatic default", x.default, ZERO[f.value])
        elif f.kind == "enum":
            g.ensure_eq("an automatic default", x.default, literal(next(iter(f.value))))
        # types
        if f.kind in ("plain", "length"):
            g.ensure_eq("the type of values", x.data_type, value_type(o, f.value))
        elif f.kind == "enum":
            g.ensure_eq("the type of enumerated values", x.data_type, enum_type(o, f.value, ident(f.value)))
        elif f.kind in ("entity", "self", "union"):
            t = n if f.kind == "self" else (f.value[0] if f.kind == "union" else f.value).__name__
            g.ensure_eq("the type of the key", x.data_type, value_type(o, key_of(w, t).value))
        elif lookup:
            g.ensure_eq("the type of the key of the lookup table", x.data_type, value_type(o, int32))
        if f.unique:
            unique.append((LocalId(f.name),))
        here = (LocalId(f.name),)
        if o.foreign_constraints:
            if f.kind in ("entity", "self"):
                foreign.append((here, [reference(w, ident, w.classes[n] if f.kind == "self" else f.value)]))
            elif f.kind == "union":
                foreign.append((here, [reference(w, ident, t) for t in f.value]))
        if lookup:
            foreign.append((here, [ot.ConstraintReference(ident(f.value), (LocalId("id"),))]))
    constraints = list(table.constraints.values()) if table.constraints else []
    if not o.foreign_constraints:
        unique = []  # known finding
    g.ensure_eq("a unique constraint for each unique field", [k.unique_columns for k in constraints if type(k) is ot.UniqueConstraint], unique)
    order = lambda l: sorted(l, key=repr)
    g.ensure_eq("a foreign key for each reference", order(
        [(k.foreign_columns, [k.reference]) for k in constraints if type(k) is ot.ForeignConstraint]
        + [(k.foreign_columns, k.references) for k in constraints if type(k) is ot.DiscriminatedConstraint]), order(foreign))
    if unique:
        g.cover("unique")
    if foreign:
        g.cover("foreign")


def check_join(g, w, c, tables, n, f, ident):
    o = c.options
    cls, item = w.classes[n], f.value
    t = tables.get(str(c.create_qualified_id(cls.__module__, f"{n}_{f.name}_{item.__name__}")))
    g.ensure("there is a table for the values of a list", t is not None, f)
    if t is None:
        return
    right = key_of(w, item.__name__) if f.kind == "entities" else None
    columns = list(t.columns.values())
    g.ensure_eq("columns of the table that joins", [x.data_type for x in columns[1:]], [
        value_type(o, key_of(w, n).value), value_type(o, right.value if right else int32)])
    g.ensure("its columns are required", not any(x.nullable for x in columns))
    g.ensure_eq("its key", t.primary_key, (columns[0].name,))
    foreign = [k for k in t.constraints.values() if type(k) is ot.ForeignConstraint]
    g.ensure_eq("it refers to both tables", [(k.foreign_columns, k.reference) for k in foreign], [
        ((columns[1].name,), reference(w, ident, cls)),
        ((columns[2].name,), reference(w, ident, item) if right else ot.ConstraintReference(ident(item), (LocalId("id"),)))])


@finding("P20")
def unique_without_foreign_constraints():
    "Recorded defect: a field marked unique has no unique constraint if the option for foreign keys is off."
    t = dataclasses.make_dataclass("P20Entity", [("id", PrimaryKey[int]), ("name", Unique[str])], module=__name__)
    sys.modules[__name__].P20Entity = t
    o = ps.DataclassConverterOptions(foreign_constraints=False, namespaces=ps.NamespaceMapping({sys.modules[__name__]: None}))
    r = ps.DataclassConverter(options=o).dataclass_to_table(t)
    return "Unique[str] has no unique constraint with foreign_constraints=False" if not r.constraints else None


# ---------------------------------------------------------------------- fields, columns, tables
class Field_:
    "A field of a data-class, and what type inspection tells of it."

    def __init__(self, name, type, default):
        self.name = name
        self.type = type
        self.default = default


class Props:
    "Assumed in callers, proved as P20.properties: what a type expression declares."

    def __init__(self, plain_type, field_type, nullable, is_primary, is_identity, is_unique):
        self.plain_type = plain_type
        self.field_type = field_type
        self.nullable = nullable
        self.is_primary = is_primary
        self.is_identity = is_identity
        self.is_unique = is_unique


class Doc:
    def __init__(self, params, full_description):
        self.params = params
        self.full_description = full_description


class Param:
    def __init__(self, description):
        self.description = description


class Cls:
    "A data-class."

    def __init__(self, module, name):
        self.__module__ = module
        self.__name__ = name


class Type_:
    "A type, and what type inspection tells of it."

    def __iter__(self):
        return iter(self.values)


@dataclasses.dataclass
class Made:
    "A table, as given to its constructor."

    name: Any
    columns: Any
    values: Any = None
    primary_key: Any = None
    constraints: Any = None
    description: Any = None


@dataclasses.dataclass
class MadeColumn:
    "A column, as given to its constructor."

    name: Any
    data_type: Any
    nullable: Any
    default: Any = None
    identity: Any = False
    description: Any = None


class Factory:
    table_class = Made
    enum_table_class = Made
    column_class = MadeColumn


@dataclasses.dataclass
class Member_:
    "A value of an enumeration."

    value: Any


def type_of(g, p, **kw):
    "An arbitrary type. Its name, module and key (for a data-class), its members (for a union)."
    return g.obj(Type_, entity=g.bool(f"{p}.entity"), union=g.bool(f"{p}.union"), __module__=g.opaque(f"{p}.module"), __name__=g.opaque(f"{p}.name"),
                 key=g.text(f"{p}.key"), **kw)


def field_of(g, p):
    "An arbitrary field of a data-class."
    values = type_of(g, f"{p}.values", members=g.seq(f"{p}.member", lambda q: type_of(g, q)),
                     extensible=g.bool(f"{p}.extensible"), enum=g.bool(f"{p}.enum"), enumeration=type_of(g, f"{p}.e"),
                     values=g.seq(f"{p}.value", lambda q: g.obj(Member_, value=g.text(q))))
    props = g.obj(Props, field_type=values, plain_type=g.opaque(f"{p}.plain"), nullable=g.bool(f"{p}.nullable"), is_primary=g.bool(f"{p}.primary"),
                  is_identity=g.bool(f"{p}.identity"), is_unique=g.bool(f"{p}.unique"))
    declared = type_of(g, f"{p}.declared", props=props, relation=g.opt(f"{p}.relation", g.opaque(f"{p}.relation")))
    column = g.obj(Column_, name=g.new(LocalId, g.name_text(f"{p}.name")), check=g.opt(f"{p}.check", g.text(f"{p}.check")))
    return g.obj(Field_, name=g.name_text(f"{p}.name"), type=declared, default=g.opaque(f"{p}.default"), column=column)


class Column_:
    "The column of a field."


def inspected(g, fields, owner=None):
    "The functions that inspect types, by what they tell. Types are not forward references."
    import strong_typing.inspection as si
    from pysqlsync.formation import inspection
    from pysqlsync.model import properties

    owner = Cls if owner is None else owner
    for f, h in ((si.dataclass_fields, lambda e, cls: fields), (si.DataclassField, lambda e, n, t, d=None: g.obj(Field_, name=n, type=t, default=d)), (properties.get_field_properties, lambda e, t: t.props),
                 (si.evaluate_member_type, lambda e, t, cls: t), (inspection.is_entity_type, lambda e, t: t.entity),
                 (si.is_type_union, lambda e, t: t.union), (si.unwrap_union_types, lambda e, t: t.members),
                 (si.unwrap_annotated_type, lambda e, t: t), (inspection.dataclass_primary_key_name, lambda e, t: t.key),
                 (si.is_type_enum, lambda e, t: t.enum), (ps.is_extensible_enum_type, lambda e, t, cls: t.extensible),
                 (ps.unwrap_extensible_enum_type, lambda e, t, cls: t.enumeration),
                 (ps.DataclassConverter.create_qualified_id, lambda e, c, m, n: ident(g, m, n)),
                 (ps.DataclassConverter.create_foreign_key_name, lambda e, c, cls, n: g.text_of("foreign", n) if cls is owner else "named after another class"),
                 (ps.DataclassConverter.create_discriminated_key_name, lambda e, c, cls, n: g.text_of("discriminated", n) if cls is owner else "named after another class"),
                 (ps.DataclassConverter.create_unique_key_name, lambda e, c, cls, n: g.text_of("unique", n) if cls is owner else "named after another class"),
                 (ps.DataclassConverter.create_check_name, lambda e, c, cls, n: g.text_of("check", n) if cls is owner else "named after another class")):
        g.override(f, h)


@dataclasses.dataclass
class Ident:
    "The name of a table."

    module: Any
    name: Any


def ident(g, m, n):
    return g.obj(Ident, module=m, name=n)


def refers(g, t):
    return g.new(ot.ConstraintReference, ident(g, t.__module__, t.__name__), (g.new(LocalId, t.key),))


def declared_constraints(g, fields, on):
    "What is declared of the fields: unique, references."
    local = lambda f: (g.new(LocalId, f.name),)
    name = lambda kind, f: g.new(LocalId, g.text_of(kind, f.name))
    props = lambda f: f.type.props
    values = lambda f: props(f).field_type
    unique = g.filter(fields, lambda f: props(f).is_unique, lambda f: g.new(ot.UniqueConstraint, name("unique", f), local(f)))
    if not on:
        return unique
    every = lambda f: g.call(all, g.map(values(f).members, lambda t: t.entity))
    foreign = g.cases(fields, lambda f: [
        (values(f).entity, g.list_of(g.new(ot.ForeignConstraint, name("foreign", f), local(f), refers(g, props(f).field_type)))),
        (g.And(g.Not(values(f).entity), values(f).union, every(f)), g.list_of(
            g.new(ot.DiscriminatedConstraint, name("discriminated", f), local(f), g.map(values(f).members, lambda t: refers(g, t))))),
    ])
    return g.flat(g.list_of(unique, g.flat(foreign)))


@contract("P20", "constraints", [D + "dataclass_to_constraints", C + "dataclass_fields_as_required"], covers=("on", "off"), samples=1)
def constraints(g):
    "A unique constraint for each field marked unique, a foreign key for each reference, in order."
    if not g.symbolic:
        return
    fields = g.seq("f", lambda p: field_of(g, p), lambda f: f.name, lambda f: [
        g.Not(g.And(*[x for x in (f.type.props.field_type.entity, f.type.props.field_type.union)]))])
    inspected(g, fields)
    on = g.flag("foreign_constraints")
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, foreign_constraints=on))
    r = g.method(c, "dataclass_to_constraints", Cls)
    g.ensure_eq("what is declared", r, declared_constraints(g, fields, on))
    g.cover("on" if on else "off")


@contract("P20", "table", [D + "dataclass_to_table", C + "dataclass_fields_as_required"], covers=("made", "TYPE", "INLINE", "RELATION", "CHECK"), samples=1)
def table(g):
    "A column for each field that is stored, in order; the key; the constraints that are declared, lookups, checks; the comment."
    if not g.symbolic:
        return
    import strong_typing.docstring as sd
    import strong_typing.inspection as si

    fields = g.seq("f", lambda p: field_of(g, p), lambda f: f.name)
    cls = type_of(g, "class")
    inspected(g, fields, cls)
    mode = g.choice("enum_mode", list(ps.EnumMode))
    foreign, check = g.flag("foreign_constraints"), g.flag("check_constraints")
    declared = g.seq("k", lambda p: g.opaque(p))
    comment = g.opaque("comment")
    doc = Doc(None, comment)
    for f, h in ((sd.parse_type, lambda e, t: doc), (si.is_dataclass_type, lambda e, t: True),
                 (ps.DataclassConverter._get_relationship, lambda e, c, t: t.relation),
                 (ps.DataclassConverter.member_to_column, lambda e, c, f, k, d: f.column),
                 (ps.DataclassConverter.create_check_constraint, lambda e, c, x: x.check),
                 (ps.DataclassConverter.dataclass_to_constraints, lambda e, c, k: declared),
                 (dt.constant, lambda e, v: g.text_of("constant", v))):
        g.override(f, h)
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, foreign_constraints=foreign, check_constraints=check, enum_mode=mode,
                                                   factory=Factory()))
    r = g.method(c, "dataclass_to_table", cls)
    g.ensure("a table", type(r) is Made, r)
    if type(r) is not Made:
        return
    local = lambda f: g.new(LocalId, f.name)
    name = lambda kind, f: g.new(LocalId, g.text_of(kind, f.name))
    columns = g.filter(fields, lambda f: g.is_none(f.type.relation), lambda f: f.column)
    g.ensure_eq("its name", r.name, ident(g, cls.__module__, cls.__name__))
    g.ensure_eq("a column for each stored field, in order", r.columns, columns)
    g.ensure_eq("its primary key", r.primary_key, (g.new(LocalId, cls.key),))
    g.ensure_eq("its comment", r.description, comment)
    want = [g.to_list(declared)] if foreign else []
    lookup = lambda f, t: g.new(ot.ForeignConstraint, name("foreign", f), (local(f),), g.new(
        ot.ConstraintReference, ident(g, t.__module__, t.__name__), (g.new(LocalId, "id"),)))
    values = lambda f: f.type.props.field_type
    want.append(g.filter(fields, lambda f: values(f).extensible, lambda f: lookup(f, values(f).enumeration)))
    if mode is ps.EnumMode.RELATION:
        want.append(g.filter(fields, lambda f: values(f).enum, lambda f: lookup(f, values(f))))
    if mode is ps.EnumMode.CHECK and check:
        want.append(g.filter(fields, lambda f: values(f).enum, lambda f: g.new(ot.CheckConstraint, name("check", f), g.call(
            one_of, local(f), g.map(values(f).values, lambda v: g.text_of("constant", v.value))))))
    want.append(g.filter(columns, lambda x: g.Not(g.Or(g.is_none(x.check), g.eq(x.check, ""))), lambda x: g.new(
        ot.CheckConstraint, g.new(LocalId, g.text_of("check", x.name.id)), x.check)))
    want = g.flat(g.list_of(*want))
    g.ensure_eq("its constraints", r.constraints, g.call(or_none, want))
    g.cover("made")
    g.cover(mode.name)


def one_of(name, values):
    return f"{name} IN ({', '.join(values)})"


def or_none(x):
    return x or None


class Doc_:
    def __init__(self, params):
        self.params = params


@dataclasses.dataclass
class Param:
    description: Any


DEFAULTED = {bool: False, int: 0, float: 0.0, str: "", decimal.Decimal: decimal.Decimal(), datetime.datetime: datetime.datetime.min,
             datetime.date: datetime.date.min, datetime.time: datetime.time.min}


@contract("P20", "column", [D + "member_to_column"], covers=("declared", "lookup", "automatic", "none", "comment"), samples=1)
def column(g):
    "The column of a field: its name, type, nullability, identity, comment; its default as declared, or automatic."
    if not g.symbolic:
        return
    import strong_typing.inspection as si
    from pysqlsync.formation import inspection
    from pysqlsync.model import properties

    kind = g.choice("kind", ["reference", "union", "union of others", "struct", "list", "set", "plain"])
    first = Plain()
    declared, auto = g.choice("default", ["missing", "none", "given"]), g.flag("auto_default")
    some = g.choice("type", [*DEFAULTED, "enum", uuid.UUID] if auto and declared == "missing" else [int, "enum"]) if kind in ("reference", "union", "plain") else uuid.UUID
    e = some == "enum"
    if e:
        some = g.obj(Type_, values=g.flat(g.list_of(g.list_of(g.obj(Member_, value=first)), g.seq("v", lambda q: g.obj(Member_, value=g.opaque(q))))))
    if kind == "plain" and not e and some is not uuid.UUID or kind == "reference":
        typ = Annotated_(some, ("note",)) if g.flag("annotated") and kind == "reference" else some
    else:
        typ = some
    plain = typ if kind == "plain" else g.obj(Type_)
    lookup = g.flag("extensible") or False
    mode = g.choice("mode", [ps.EnumMode.RELATION, ps.EnumMode.CHECK])
    if kind not in ("union", "union of others") and lookup or lookup and kind == "plain":
        return  # an extensible enumeration is a union
    values = g.opaque("values")
    props = g.obj(Props, plain_type=plain, field_type=values, nullable=g.bool("nullable"), is_primary=g.bool("primary"), is_identity=g.bool("identity"), is_unique=False)
    given = Plain()
    data_type = g.sql_type("data_type")
    default = {"missing": dataclasses.MISSING, "none": None, "given": given}[declared]
    other, simple = g.obj(Type_), typ
    for f, h in ((properties.get_field_properties, lambda e, t: props), (ps.DataclassConverter.member_to_sql_data_type, lambda e, c, t, k: data_type if t is values else None),
                 (ps.is_extensible_enum_type, lambda e, t, k: lookup), (si.is_type_enum, lambda q, t: e and t is some),
                 (inspection.is_reference_type, lambda e, t, k: kind == "reference"), (inspection.reference_to_key, lambda e, t, k: typ),
                 (si.is_type_union, lambda e, t: kind in ("union", "union of others")),
                 (si.unwrap_union_types, lambda e, t: (other, simple, other) if kind == "union" else (other,)), (si.evaluate_member_type, lambda e, t, k: t),
                 (inspection.is_simple_type, lambda e, t: t is simple), (inspection.is_struct_type, lambda e, t: kind == "struct"),
                 (si.is_generic_list, lambda e, t: kind == "list"), (si.is_generic_set, lambda e, t: kind == "set"),
                 (si.unwrap_annotated_type, lambda e, t: t.inner if type(t) is Annotated_ else t),
                 (dt.constant, lambda e, v: ("constant", v))):
        g.override(f, h)
    comment = g.choice("comment", ["none", "given"])
    text = g.text("comment")
    name = g.name_text("name")
    docs = g.new(Doc_, g.as_dict(g.list_of((name, g.new(Param, text))) if comment == "given" else g.list_of()))
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, auto_default=auto, enum_mode=mode, factory=Factory()))
    r = g.method(c, "member_to_column", g.obj(Field_, name=name, type=g.obj(Type_), default=default), g.obj(Type_), docs)
    g.ensure_eq("its name", r.name, g.new(LocalId, name))
    g.ensure("the type of its values", r.data_type is data_type, r.data_type)
    g.ensure_eq("nullable exactly if optional", r.nullable, props.nullable)
    g.ensure_eq("its identity", r.identity, props.is_identity)
    g.ensure_eq("its comment", r.description, text if comment == "given" else None)
    want = None
    if lookup or e and plain is some and mode is ps.EnumMode.RELATION:
        g.cover("lookup")
    elif declared == "given":
        want = ("constant", given)
        g.cover("declared")
    elif auto and kind in ("reference", "union", "plain") and (mode is not ps.EnumMode.RELATION if e else some in DEFAULTED) and not g.truth(
            g.Or(props.nullable, props.is_primary, props.is_identity)):
        want = ("constant", first if e else DEFAULTED[some])
        g.cover("automatic")
    else:
        g.cover("none")
    g.ensure_eq("its default", r.default, want)
    if comment == "given":
        g.cover("comment")


# ---------------------------------------------------------------------- keys
I = "pysqlsync/formation/inspection.py::"


@contract("P20", "key", [I + "dataclass_has_primary_key", I + "dataclass_primary_key_name", I + "dataclass_primary_key_type",
                         "pysqlsync/model/properties.py::get_primary_key_name", "pysqlsync/model/properties.py::get_primary_key_name_type",
                         "pysqlsync/model/properties.py::is_primary_key_type"], covers=("key", "none"), samples=1)
def key(g):
    "The first field that is marked is the primary key; a class without one has none."
    if not g.symbolic:
        return
    import strong_typing.inspection as si
    from pysqlsync.formation import inspection
    from pysqlsync.model import properties

    def make(p, primary=None):
        primary = g.bool(f"{p}.primary") if primary is None else primary
        props = g.obj(Props, is_primary=primary, field_type=g.opaque(f"{p}.values"), tsv_type=g.opaque(f"{p}.tsv"))
        return g.obj(Field_, name=g.name_text(f"{p}.name"), type=g.obj(Type_, primary=primary, props=props))

    before = g.seq("f<", lambda p: make(p, False))
    first = make("f", True) if g.flag("has a key") else None
    fields = g.flat(g.list_of(before, *([g.list_of(first), g.seq("f>", make)] if first is not None else [])))
    g.override(si.dataclass_fields, lambda e, c: fields)
    g.override(si.unwrap_annotated_type, lambda e, t: t)
    g.override(properties.get_field_properties, lambda e, t: t.props)
    cls = g.obj(Type_, __name__="Entity")
    g.ensure_eq("it has a key if a field is marked", g.call(inspection.dataclass_has_primary_key, cls), first is not None)
    for f, want in ((inspection.dataclass_primary_key_name, lambda f: f.name), (inspection.dataclass_primary_key_type, lambda f: f.type.props.field_type),
                    (properties.get_primary_key_name, lambda f: f.name),
                    (properties.get_primary_key_name_type, lambda f: (f.name, f.type.props.tsv_type))):
        r = g.outcome(f, None, cls)
        if first is None:
            g.ensure("there is no key", r.raised and isinstance(r.value, TypeError), r)
        else:
            g.ensure("there is a key", not r.raised, r)
            if not r.raised:
                g.ensure_eq(f"the first that is marked: {f.__name__}", r.value, want(first))
    g.cover("none" if first is None else "key")


@contract("P20", "range", [D + "create_check_constraint"], covers=("range", "none"))
def range_(g):
    "The range of values of an integer column is a condition; there is no empty condition."
    which = g.choice("type", ["integer", "text"])
    lower = g.int("lower") if g.flag("has lower") else None
    upper = g.int("upper") if g.flag("has upper") else None
    t = dt.SqlIntegerType(8)
    t.minimum, t.maximum = lower, upper
    t = t if which == "integer" else dt.SqlVariableCharacterType(8)
    x = g.obj(ot.Column, name=g.new(LocalId, g.name_text("name")), data_type=t)
    c = g.obj(ps.DataclassConverter)
    r = g.method(c, "create_check_constraint", x)
    want = []
    if which == "integer" and lower is not None:
        want.append(g.call(condition, x.name, ">=", lower))
    if which == "integer" and upper is not None:
        want.append(g.call(condition, x.name, "<=", upper))
    g.ensure_eq("the conditions", r, g.method(" AND ", "join", want) if want else None)
    g.cover("range" if want else "none")


def condition(name, op, value):
    return f"({name} {op} {value})"


@contract("P20", "names", [D + "create_qualified_id", D + "create_qualified_prefix", D + "create_foreign_key_name", D + "create_discriminated_key_name",
                           D + "create_unique_key_name", D + "create_check_name"], covers=("names",), samples=1)
def names(g):
    "The name of a table; the names of constraints are of their kind, table and field."
    if not g.symbolic:
        return
    qualified, unique = g.flag("qualified_names"), g.flag("unique_constraint_names")
    space = g.opt("namespace", g.name_text("namespace"))
    g.override(ps.NamespaceMapping.get, lambda e, m, n: space)
    name, field = g.name_text("name"), g.name_text("field")
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, qualified_names=qualified, unique_constraint_names=unique,
                                                   namespaces=g.obj(ps.NamespaceMapping)))
    cls = g.obj(Type_, __module__=g.opaque("module"), __name__=name)
    r = g.method(c, "create_qualified_id", cls.__module__, name)
    g.ensure_eq("the name of the table", r, g.new(QualifiedId if qualified else PrefixedId, space, name))
    prefix = g.method(g.attr(g.new(QualifiedId if qualified else PrefixedId, space, name), "compact_id"), "replace", ".", "_") if unique else name
    for f, k in (("create_foreign_key_name", "fk"), ("create_discriminated_key_name", "dk"), ("create_unique_key_name", "uq"), ("create_check_name", "ch")):
        g.ensure_eq(f"the name of a constraint: {k}", g.method(c, f, cls, field), g.method("_", "join", [k, prefix, field]))
    g.cover("names")


@contract("P20", "lookup", [D + "_enum_table", D + "_enumeration_key_type"], covers=("texts", "classes", "rows", "mixed"), samples=1)
def lookup(g):
    "The table of an enumeration: a key that is generated, its values, unique; its rows if they are wanted."
    if not g.symbolic:
        return
    import strong_typing.docstring as sd
    import strong_typing.inspection as si

    kind = g.choice("kind", ["text", "number", "class", "mixed", "other"])
    fill = g.flag("initialize_tables")

    class Value:
        pass

    class Other:
        pass

    first = {"text": "a", "number": 5, "class": Value(), "mixed": "a", "other": Other()}[kind]
    values = [first, {"text": "b", "number": 6, "class": Value(), "mixed": 2, "other": Other()}[kind]]
    e = g.obj(Type_, values=[g.obj(Member_, value=v) for v in values], __module__=g.opaque("module"), __name__=g.name_text("name"))
    fields = g.seq("f", lambda p: field_of(g, p), lambda f: f.name)
    inspected(g, fields)
    key, label = g.opaque("key type"), g.opaque("label type")
    for f, h in ((sd.parse_type, lambda q, t: "doc"), (si.is_dataclass_type, lambda q, t: t is Value),
                 (ps.DataclassConverter.simple_type_to_sql_data_type, lambda q, c, t: key if t is int32 else None),
                 (ps.DataclassConverter.member_to_sql_data_type, lambda q, c, t, k: label if t is ps.ENUM_LABEL_TYPE else None),
                 (ps.DataclassConverter.member_to_column, lambda q, c, f, k, d: f.column if k is Value else None)):
        g.override(f, h)
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, initialize_tables=fill, factory=Factory()))
    r = g.outcome(c, "_enum_table", e)
    if kind in ("mixed", "other"):
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("mixed")
        return
    g.ensure("a table", not r.raised, r)
    if r.raised:
        return
    r = r.value
    local = lambda n: g.new(LocalId, n)
    g.ensure_eq("its name", r.name, ident(g, e.__module__, e.__name__))
    g.ensure_eq("its key", r.primary_key, (local("id"),))
    head = g.new(MadeColumn, local("id"), key, False, None, True)
    if kind == "class":
        g.ensure_eq("a column for each field of its values", g.to_list(r.columns), g.flat(g.list_of(g.list_of(head), g.map(fields, lambda f: f.column))))
        g.ensure_eq("no constraints", g.to_list(r.constraints), g.list_of())
        g.cover("classes")
    else:
        g.ensure_eq("its columns", g.to_list(r.columns), g.list_of(head, g.new(MadeColumn, local("value"), label, False)))
        g.ensure_eq("its values are unique", [k.unique_columns for k in g.items(r.constraints)], [(local("value"),)])
        g.cover("texts")
    g.ensure_eq("its rows", r.values, values if fill else None)
    if fill:
        g.cover("rows")


# ---------------------------------------------------------------------- types
class Substitute(dt.SqlDataType):
    "A data type that a dialect uses instead."

    def parse_meta(self, meta):
        raise NotImplementedError


class Skipped:
    "An annotation that is ignored."


@contract("P20", "annotations", [D + "simple_type_to_sql_data_type"], covers=("substituted", "basic", "custom", "refused"), samples=1)
def annotations(g):
    "Each annotation of a type is given to a data type of its own, those ignored are not; what a dialect uses instead is shared and kept."
    if not g.symbolic:
        return
    import strong_typing.inspection as si

    substitute = Substitute()
    base = g.choice("base", [int, str, float, decimal.Decimal, datetime.datetime, datetime.time, bytes, "class"])
    given = g.flag("substituted")
    kind = "class" if base == "class" else None
    inner = g.obj(Type_, __module__=g.opaque("module"), __name__=g.opaque("name")) if kind else base
    metadata = g.flat(g.list_of(g.list_of(g.opaque("m0")), g.seq("m", lambda p: g.opaque(p))))
    t = g.new(Annotated_, inner, g.to_tuple(metadata))
    made = {int: dt.SqlIntegerType, str: dt.SqlVariableCharacterType, float: dt.SqlFloatType, decimal.Decimal: dt.SqlDecimalType,
            datetime.datetime: dt.SqlTimestampType, datetime.time: dt.SqlTimeType}
    log, shared = g.list_of(), g.list_of()
    for c in made.values():
        g.override(c.parse_meta, lambda e, s, m: e.append(log, m))
    g.override(Substitute.parse_meta, lambda e, s, m: e.append(shared if s is substitute else log, m))
    g.override(si.unwrap_annotated_type, lambda e, x: x.inner if type(x) is Annotated_ else x)
    g.override(si.is_type_enum, lambda e, x: kind is not None and x is inner)
    g.override(ps.enum_value_type, lambda e, x: str)
    g.override(ps.DataclassConverter.create_qualified_id, lambda e, c, m, n: ident(g, m, n))
    subs = {inner: substitute} if given else {}
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, substitutions=subs, enum_mode=ps.EnumMode.TYPE, skip_annotations=(Skipped,),
                                                   extra_numeric_types=False))
    r = g.outcome(c, "simple_type_to_sql_data_type", t)
    kept = g.call(not_skipped, metadata)
    nothing = g.call(is_empty, kept)
    if given:
        g.ensure("a data type", not r.raised, r)
        g.ensure_eq("what is shared is kept", shared, g.list_of())
        if not r.raised:
            g.ensure("a data type of its own", type(r.value) is Substitute and r.value is not substitute, r)
            g.ensure_eq("each annotation", g.to_tuple(log), kept)
        g.cover("substituted")
    elif base in made:
        g.ensure("a data type", not r.raised and type(r.value) is made[base], r)
        g.ensure_eq("each annotation", g.to_tuple(log), kept)
        g.cover("basic")
    elif g.truth(nothing):
        if kind:
            g.ensure_eq("the type of the class", g.attr(r.value, "ref") if not r.raised else r, ident(g, inner.__module__, inner.__name__))
            g.cover("custom")
    else:
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")


NUMBER = (0, 70000)
# annotation, its attributes, the data types that take it and the attributes that it sets
META = [
    (sa.IntegerRange, ("minimum", "maximum"), {dt.SqlIntegerType: {"minimum": "minimum", "maximum": "maximum"}}),
    (sa.Signed, ("is_signed",), {dt.SqlIntegerType: {"signed": "is_signed"}}),
    (sa.Storage, ("bytes",), {dt.SqlIntegerType: {"width": "bytes"}, dt.SqlVariableBinaryType: {"storage": "bytes"}}),
    (sa.Precision, ("significant_digits", "decimal_digits"), {dt.SqlFloatType: {"precision": "significant_digits"},
                                                               dt.SqlDecimalType: {"precision": "significant_digits", "scale": "decimal_digits"}}),
    (sa.TimePrecision, ("decimal_digits",), {dt.SqlTimestampType: {"precision": "decimal_digits"}, dt.SqlTimeType: {"precision": "decimal_digits"}}),
    (sa.MaxLength, ("value",), {dt.SqlVariableCharacterType: {"limit": "value"}}),
]
TYPED = {dt.SqlIntegerType: ("width", "signed", "minimum", "maximum"), dt.SqlFloatType: ("precision",), dt.SqlDecimalType: ("precision", "scale"),
         dt.SqlTimestampType: ("precision", "with_time_zone"), dt.SqlTimeType: ("precision", "with_time_zone"), dt.SqlVariableBinaryType: ("storage",),
         dt.SqlVariableCharacterType: ("limit",), dt.SqlBooleanType: (), dt.SqlUuidType: (), dt.SqlDateType: (), dt.SqlJsonType: (),
         dt.SqlFixedCharacterType: ("limit",), dt.SqlFixedBinaryType: ("storage",)}


@contract("P20", "annotation", [f"pysqlsync/model/data_types.py::{c.__name__}.parse_meta" for c in TYPED if "parse_meta" in c.__dict__], covers=("set", "refused"), samples=600)
def annotation(g):
    "An annotation sets what it says of a type and leaves the rest; an annotation that says nothing of the type is refused."
    cls = g.choice("type", list(TYPED))
    kind, names, takes = META[g.choice("annotation", list(range(len(META))))]
    before = {a: g.flag(a) if a in ("signed", "with_time_zone") else g.int(a, *NUMBER) for a in TYPED[cls]}
    said = {n: g.flag(n) if n == "is_signed" else g.int(f"annotated {n}", *NUMBER) for n in names}
    t = g.new(cls, **before)
    meta = g.obj(kind, **said) if g.symbolic else object.__new__(kind)
    if not g.symbolic:
        for k, v in said.items():
            object.__setattr__(meta, k, v)
    r = g.outcome(t, "parse_meta", meta)
    sets = takes.get(cls)
    if sets is None:
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
    else:
        g.ensure("accepted", not r.raised, r)
        g.cover("set")
    for a in TYPED[cls]:
        g.ensure_eq(f"{cls.__name__}.{a} after {kind.__name__}", g.attr(t, a), said[sets[a]] if sets and a in sets else before[a])


def not_skipped(metadata):
    return tuple(m for m in metadata if not isinstance(m, Skipped))


def is_empty(x):
    return not x


COLORS = enum.Enum("COLORS", {"red": "red", "blue": "it's"})
NUMBERS = enum.Enum("NUMBERS", {"one": 1, "two": 2})
EXTRA = {int8: "int1", uint8: "uint1", uint16: "uint2", uint32: "uint4", uint64: "uint8"}


@contract("P20", "simple", [D + "simple_type_to_sql_data_type", C + "enum_value_type"], covers=("basic", "equal", "extra", "enum"), samples=400)
def simple(g):
    "The type of a column for each basic type, as the same object or an equal one; for an enumeration, by mode."
    t = g.choice("type", [*BASIC, "text", "number"])
    extra, twin = g.flag("extra_numeric_types"), g.flag("twin")
    mode = g.choice("mode", list(ps.EnumMode))
    e = {"text": COLORS, "number": NUMBERS}.get(t) if isinstance(t, str) else None
    ns = ps.NamespaceMapping({sys.modules[__name__]: "here"})
    c = ps.DataclassConverter(options=ps.DataclassConverterOptions(extra_numeric_types=extra, enum_mode=mode, namespaces=ns))
    if e is None:
        given = typing._AnnotatedAlias(typing.get_args(t)[0], t.__metadata__) if twin and typing.get_origin(t) is Annotated else t
        r = g.method(c, "simple_type_to_sql_data_type", given)
        g.ensure_eq("the type of the column", r, dt.SqlUserDefinedType(GlobalId(EXTRA[t])) if extra and t in EXTRA else BASIC[t])
        g.cover("extra" if extra and t in EXTRA else "equal" if given is not t else "basic")
        return
    r = g.method(c, "simple_type_to_sql_data_type", e)
    text = dt.SqlVariableCharacterType(64) if e is COLORS else dt.SqlIntegerType(8)
    g.ensure_eq("the type of the column, of an enumeration", r, {
        ps.EnumMode.TYPE: dt.SqlUserDefinedType(QualifiedId("here", e.__name__)), ps.EnumMode.INLINE: dt.SqlEnumType([str(m.value) for m in e]),
        ps.EnumMode.RELATION: dt.SqlIntegerType(4), ps.EnumMode.CHECK: text}[mode])
    g.cover("enum")


@contract("P20", "member", [D + "member_to_sql_data_type"], covers=(
    "substituted", "simple", "entity", "struct", "inline", "json", "forward", "literal", "array", "refused", "extensible", "union of entities", "union", "class"),
    samples=1)
def member(g):
    "The type of the column for each kind of field; what cannot be stored in a column is refused."
    if not g.symbolic:
        return
    import strong_typing.inspection as si
    from pysqlsync.formation import inspection
    from pysqlsync.model import properties

    from pyvc.engine import PyRaise

    kind = g.choice("kind", ["substituted", "simple", "entity", "data", "forward", "literal", "list", "set", "extensible", "union", "class", "other"])
    array, struct = g.choice("array", list(ps.ArrayMode)) if kind in ("list", "set") else None, g.choice("struct", list(ps.StructMode)) if kind == "data" else None

    class Class:
        pass

    def new(p, **kw):
        return g.obj(Type_, **{**dict(simple=False, entity=False, data=False, literal=False, list=False, set=False, extensible=False, union=False, __module__=g.opaque(
            f"{p}.module"), __name__=g.opaque(f"{p}.name"), type=g.opaque(f"{p}.type")), **kw})

    simple = new("simple", simple=True)
    t = new("t")
    context = new("context")
    other = new("misread", simple=True)
    forward, place = typing.ForwardRef("X"), context
    members = None
    if kind == "simple":
        t.simple = True
    elif kind == "entity":
        t.entity = t.data = True
        # the key may be declared with a forward reference, to be read in the module of the entity
        t.key_type = forward if g.flag("forward key") else simple
        place = t if t.key_type is forward else place
    elif kind == "data" and struct is ps.StructMode.INLINE and g.flag("forward field"):
        t.data, place = True, t
        t.fields = g.list_of(g.obj(Field_, name="n", type=g.obj(Type_, props=g.obj(Props, field_type=forward, nullable=g.bool("f.nullable")))))
    elif kind == "data":
        t.data = True
        t.fields = g.seq("f", lambda p: g.obj(Field_, name=g.name_text(f"{p}.name"), type=g.obj(Type_, props=g.obj(
            Props, field_type=new(f"{p}.values", simple=True), nullable=g.bool(f"{p}.nullable")))), lambda f: f.name)
    elif kind == "forward":
        t = forward
    elif kind == "literal":
        t.literal = True
        t.values = ["a", "bcd"] if g.flag("texts") else [1, 2]
        t.types = [str, str] if t.values[0] == "a" else [simple, simple]
    elif kind in ("list", "set"):
        item = g.choice("item", ["simple", "entity", "class", "other"])
        t.list, t.set = kind == "list", kind == "set"
        t.item = Class if item == "class" else new("item", simple=item == "simple", entity=item == "entity")
    elif kind == "extensible":
        t.extensible = t.union = True
    elif kind == "union":
        t.union = True
        case = g.choice("members", ["entities", "different", "others", "incompatible"])
        keys = [simple, new("key", simple=True) if case == "different" else simple]
        t.members = (new("e1", entity=True, data=True, key_type=keys[0]), new("e2", entity=True, data=True, key_type=keys[1])) if case in (
            "entities", "different") else (simple, new("o", simple=True))
    elif kind == "class":
        t = Class

    def compatible(e, types):
        members.extend(g.items(types))
        if kind == "union" and case == "incompatible":
            raise PyRaise(dt.CompatibilityError("incompatible"))
        return common

    members, common = [], g.opaque("common")
    at = lambda name: lambda e, t, *a: getattr(t, name, False) if type(t) is Type_ else False
    for f, h in ((inspection.is_simple_type, at("simple")), (inspection.is_entity_type, at("entity")), (si.is_dataclass_type, at("data")),
                 (si.is_type_literal, at("literal")), (si.is_generic_list, at("list")), (si.is_generic_set, at("set")), (ps.is_extensible_enum_type, at("extensible")),
                 (si.is_type_union, at("union")), (si.unwrap_literal_types, lambda e, t: tuple(t.types)), (si.unwrap_literal_values, lambda e, t: tuple(t.values)),
                 (si.unwrap_generic_list, at("item")), (si.unwrap_generic_set, at("item")), (si.unwrap_union_types, at("members")),
                 (si.unwrap_annotated_type, lambda e, t: t), (si.evaluate_member_type, lambda e, t, k: (simple if k is place else other) if t is forward else t),
                 (si.dataclass_fields, lambda e, t: t.fields), (properties.get_field_properties, lambda e, t: t.props),
                 (inspection.dataclass_primary_key_type, at("key_type")), (dt.compatible_type, compatible),
                 (ps.DataclassConverter.create_qualified_id, lambda e, c, m, n: ident(g, m, n)),
                 (ps.DataclassConverter.simple_type_to_sql_data_type, lambda e, c, t: keytype if t is int32 else t.type)):
        g.override(f, h)
    keytype, json, instead = Plain(), Plain(), Plain()
    substitutions = {JsonType: json}
    if kind == "substituted":
        substitutions[t] = instead
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, substitutions=substitutions, array_mode=array, struct_mode=struct))
    r = g.outcome(c, "member_to_sql_data_type", t, context)
    named = lambda k: g.new(dt.SqlUserDefinedType, ident(g, k.__module__, k.__name__))
    refused = kind == "other" or kind == "union" and case in ("different", "incompatible") or kind in ("list", "set") and (
        item in ("entity", "other") or array is ps.ArrayMode.RELATION)
    if refused:
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
        return
    g.ensure("there is a type", not r.raised, r)
    if r.raised:
        return
    r = r.value
    cover = kind
    if kind == "substituted":
        want = instead
    elif kind == "simple":
        want = t.type
    elif kind in ("entity", "forward"):
        want = simple.type
    elif kind == "data":
        cover = {ps.StructMode.TYPE: "struct", ps.StructMode.INLINE: "inline", ps.StructMode.JSON: "json"}[struct]
        want = json if cover == "json" else named(t) if cover == "struct" else g.new(dt.SqlStructType, g.map(t.fields, lambda f: g.new(
            dt.SqlStructMember, g.new(LocalId, f.name), (simple if f.type.props.field_type is forward else f.type.props.field_type).type, f.type.props.nullable)))
    elif kind == "literal":
        want = common
        g.ensure_eq("the type of each value", members, [dt.SqlFixedCharacterType(1), dt.SqlFixedCharacterType(3)] if t.values[0] == "a" else [simple.type] * 2)
    elif kind in ("list", "set"):
        cover = "json" if array is ps.ArrayMode.JSON else "array"
        want = json if cover == "json" else g.new(dt.SqlArrayType, t.item.type if item == "simple" else named(Class))
    elif kind == "extensible":
        want = keytype
    elif kind == "union":
        cover = "union of entities" if case == "entities" else "union"
        want = simple.type if case == "entities" else common
        if case == "others":
            g.ensure_eq("the type of each member", members, [simple.type, t.members[1].type])
    else:
        want = named(Class)
    g.ensure_eq("the type of the column", r, want)
    g.cover(cover)


@dataclasses.dataclass
class MadeNamespace:
    "A namespace, as given to its constructor."

    name: Any
    enums: Any
    structs: Any
    tables: Any


@dataclasses.dataclass
class MadeCatalog:
    namespaces: Any


class CatalogFactory(Factory):
    namespace_class = MadeNamespace


@contract("P20", "catalog", [D + "dataclasses_to_catalog"], covers=("joined", "qualified", "prefixed", "abstract", "refused"), samples=1)
def catalog(g):
    "The table of each class, in order of names; a table that joins for each list of entities, with a key to both; in the namespace of the module."
    if not g.symbolic:
        return
    import inspect

    import strong_typing.inspection as si
    from pysqlsync.formation import inspection

    qualified = g.flag("qualified_names")
    mode = g.choice("enum_mode", [ps.EnumMode.RELATION, ps.EnumMode.CHECK])
    new = lambda n, m, **kw: g.obj(Type_, **{**dict(__name__=n, __module__=m, key=g.text(f"{n}.key"), entity=True, key_type=Plain(), table=Plain(), fields=[], abstract=False), **kw})

    def make(p):
        entity, enum = g.bool(f"{p}.entity"), g.bool(f"{p}.enum")
        item = g.obj(Type_, entity=entity, enum=enum, __name__=g.name_text(f"{p}.item"), __module__=g.opaque(f"{p}.module"), key=g.text(f"{p}.key"), key_type=g.opaque(f"{p}.kt"))
        kind = g.opaque(f"{p}.kind")
        return g.obj(Field_, name=g.name_text(f"{p}.name"), type=g.obj(Type_, item=item, kind=kind, relation=g.opt(f"{p}.relation", (kind, item))), default=None)

    known = lambda f: g.Or(f.type.item.entity, *([f.type.item.enum] if mode is ps.EnumMode.RELATION else []))
    refused = g.flag("nothing to refer to")
    if refused:
        fields = [make("f")]
        g.assume(g.Not(known(fields[0])))
    else:
        fields = g.seq("f", make, lambda f: f.name, lambda f: [known(f)])
    a, b, base = new("Alpha", "m2", fields=fields), new("Beta", "m1"), new("Base", "m1", abstract=True)
    classes = g.choice("order", [[a, b], [b, a]])
    if g.flag("abstract"):
        classes = [base, *classes]
        g.cover("abstract")
    for f, h in ((inspect.isabstract, lambda e, t: t.abstract), (si.get_referenced_types, lambda e, t: {a, b} if t is a else set()),
                 (inspection.is_entity_type, lambda e, t: t.entity), (si.dataclass_fields, lambda e, t: t.fields),
                 (ps.dataclass_fields_as_required, lambda e, t, p=None: []), (si.is_type_enum, lambda e, t: getattr(t, "enum", False)),
                 (ps.DataclassConverter._get_relationship, lambda e, c, t: t.relation), (ps.DataclassConverter.dataclass_to_table, lambda e, c, t: t.table),
                 (inspection.dataclass_primary_key_name, lambda e, t: t.key), (inspection.dataclass_primary_key_type, lambda e, t: t.key_type),
                 (ps.DataclassConverter.member_to_sql_data_type, lambda e, c, t, k: ("type", t)), (ps.DataclassConverter._enumeration_key_type, lambda e, c: "key"),
                 (ps.DataclassConverter.create_qualified_id, lambda e, c, m, n: ident(g, m, n)),
                 (ps.DataclassConverter.create_qualified_prefix, lambda e, c, t: "prefix"),
                 (ps.NamespaceMapping.get, lambda e, m, n: f"namespace of {n}")):
        g.override(f, h)
    g.global_value(ps, "Catalog", MadeCatalog)
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, qualified_names=qualified, enum_mode=mode, struct_mode=ps.StructMode.JSON,
                                                   namespaces=g.obj(ps.NamespaceMapping), factory=CatalogFactory()))
    if refused:
        r = g.outcome(c, "dataclasses_to_catalog", classes)
        g.ensure("a list of what no table holds is refused", g.Or(g.is_none(fields[0].type.relation), r.kind == "raise" and isinstance(r.value, TypeError)), r.value)
        g.cover("refused")
        return
    r = g.method(c, "dataclasses_to_catalog", classes)
    there = lambda f: g.Not(g.is_none(f.type.relation))
    alone = lambda f: g.eq(f.type.kind, set)
    joins = g.cases(fields, lambda f: [
        (g.And(there(f), alone(f) if u else g.Not(alone(f)), f.type.item.entity if x else g.Not(f.type.item.entity)), joined(g, a, f, u, x))
        for u in (True, False) for x in (True, False)])
    first, second = g.flat(g.list_of(g.list_of(a.table), joins)), g.list_of(b.table)
    namespaces = g.items(r.namespaces)
    if qualified:
        g.ensure_eq("a namespace for each module", [n.name for n in namespaces], [LocalId("namespace of m2"), LocalId("namespace of m1")])
        want = [first, second]
        g.cover("qualified")
    else:
        g.ensure_eq("one namespace", [n.name for n in namespaces], [LocalId("")])
        want = [g.flat(g.list_of(first, second))]
        g.cover("prefixed")
    for n, y in zip(namespaces, want):
        g.ensure_eq("the tables of the classes, those that join", g.to_list(n.tables), y)
    g.cover("joined")


def joined(g, a, f, unique, entity):
    "The table that joins: a key of its own, a key of each of the tables, and references to both."
    item = f.type.item
    local = lambda n: g.new(LocalId, n)
    text = lambda *parts: g.method("_", "join", list(parts))
    key = item.key if entity else "id"
    left, right = text(a.__name__, f.name), text(item.__name__, key)
    name = text("prefix", f.name)
    refers = lambda n, x, t, k: g.new(ot.ForeignConstraint, local(text("jk", n)), (local(x),), g.new(
        ot.ConstraintReference, ident(g, t.__module__, t.__name__), (local(k),)))
    constraints = [refers(name, left, a, a.key), refers(text(name, item.__name__), right, item, key)]
    if unique:
        constraints.append(g.new(ot.UniqueConstraint, local(text("uq", name, item.__name__)), (local(right),)))
    columns = [g.new(MadeColumn, local("uuid"), ("type", uuid.UUID), False), g.new(MadeColumn, local(left), ("type", a.key_type), False),
               g.new(MadeColumn, local(right), ("type", item.key_type) if entity else "key", False)]
    return g.new(Made, ident(g, a.__module__, text(left, item.__name__)), g.list_of(*columns), None, (local("uuid"),), g.list_of(*constraints))


@contract("P20", "relationship", [D + "_get_relationship", C + "is_extensible_enum_type", C + "unwrap_extensible_enum_type", C + "is_type_enum_list", C + "is_type_enum_set"],
          covers=("join", "stored", "extensible", "fixed"), samples=400)
def relationship(g):
    "Lists and sets of entities (or all, if so wanted) are in a table of their own; a union of an enumeration and texts is extensible."
    Entity = g.choice("item", [Thing, int, COLORS])
    kind = g.choice("kind", [list, set, dict, None])
    optional, annotated = g.flag("optional"), g.flag("annotated")
    mode = g.choice("mode", list(ps.ArrayMode))
    t = {list: list[Entity], set: set[Entity], dict: dict[str, Entity], None: Entity}[kind]
    t = Annotated[t, "note"] if annotated else t
    t = Optional[t] if optional else t
    c = ps.DataclassConverter(options=ps.DataclassConverterOptions(array_mode=mode))
    r = g.method(c, "_get_relationship", t)
    there = kind in (list, set) and (mode is ps.ArrayMode.RELATION or Entity is Thing)
    g.ensure_eq("a table of its own", r, (kind, Entity) if there else None)
    g.cover("join" if there else "stored")
    plain = {list: list[Entity], set: set[Entity], dict: dict[str, Entity], None: Entity}[kind]
    g.ensure_eq("a list of enumerated values", g.call(ps.is_type_enum_list, plain), kind is list and Entity is COLORS)
    g.ensure_eq("a set of enumerated values", g.call(ps.is_type_enum_set, plain), kind is set and Entity is COLORS)
    u = g.choice("union", [Union[COLORS, str], Union[str, COLORS], Union[int, COLORS], Union[int, str], Union[COLORS, "Thing"], str, COLORS,
                           Union[Annotated[str, "note"], COLORS]])
    extensible = u in (Union[COLORS, str], Union[Annotated[str, "note"], COLORS])
    inner = u if not optional else Annotated[u, "note"]
    g.ensure_eq("extensible exactly if of an enumeration and texts", g.call(ps.is_extensible_enum_type, inner, Thing),
                extensible)
    if extensible:
        g.ensure_eq("its enumeration", g.call(ps.unwrap_extensible_enum_type, u, Thing), COLORS)
    g.cover("extensible" if extensible else "fixed")


@dataclasses.dataclass
class Thing:
    id: PrimaryKey[int]


# ---------------------------------------------------------------------- composite types, modules
@dataclasses.dataclass
class MadeStruct:
    "A composite type, as given to its constructor."

    name: Any
    members: Any
    description: Any = None


@contract("P20", "struct", [D + "dataclass_to_struct", D + "member_to_field"], covers=("made", "refused", "wrapped"), samples=1)
def struct(g):
    "A composite type has a member for each field, in order, of the type of its values, with its comment."
    if not g.symbolic:
        return
    import strong_typing.docstring as sd
    import strong_typing.inspection as si
    from pysqlsync.model import properties
    from pyvc.engine import PyRaise

    typed = g.flag("data-class")
    good = g.flag("supported")
    fields = g.seq("f", lambda p: g.obj(Field_, name=g.name_text(f"{p}.name"), type=g.obj(Type_, props=g.obj(
        Props, field_type=g.obj(Type_, converted=g.sql_type(f"{p}.converted")))), default=None), lambda f: f.name)
    commented = g.seq("c", lambda p: (g.name_text(f"{p}.param"), g.new(Param, g.text(f"{p}.comment"))), lambda x: x[0])
    params = g.as_dict(commented)
    whole = g.opaque("comment")
    cls = g.obj(Type_, __module__=g.opaque("module"), __name__=g.opaque("name"))

    def convert(e, c, t, k):
        if k is not cls:
            g.fail("the members are read in the scope of the class")
        if not good:
            raise PyRaise(TypeError("unsupported"))
        return t.converted

    for f, h in ((si.is_dataclass_type, lambda e, t: typed), (sd.parse_type, lambda e, t: g.obj(Doc, params=params, full_description=whole)),
                 (si.dataclass_fields, lambda e, t: fields), (properties.get_field_properties, lambda e, t: t.props),
                 (ps.DataclassConverter.member_to_sql_data_type, convert),
                 (ps.DataclassConverter.create_qualified_id, lambda e, c, m, n: ident(g, m, n))):
        g.override(f, h)
    factory = Factory()
    factory.struct_class = MadeStruct
    c = g.obj(ps.DataclassConverter, options=g.obj(ps.DataclassConverterOptions, factory=factory))
    r = g.outcome(c, "dataclass_to_struct", cls)
    if not typed:
        g.ensure("refused: not a data-class", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
        return
    if r.raised:
        g.ensure("refused only if a type is not supported", not good and isinstance(r.value, TypeError), r)
        g.cover("wrapped")
        return
    g.cover("made")
    g.ensure_eq("its name", r.value.name, ident(g, cls.__module__, cls.__name__))
    g.ensure_eq("its comment", r.value.description, whole)
    if good:
        want = g.map(fields, lambda f: g.new(ot.StructMember, g.new(LocalId, f.name), f.type.props.field_type.converted, description=described(g, params, f.name)))
        got = r.value.members
        g.ensure_eq("a member for each field, in order", g.map(got, lambda m: (m.name, m.data_type, m.description)),
                    g.map(want, lambda m: (m.name, m.data_type, m.description)))


def described(g, params, name):
    return g.call(comment_of, params, name)


def comment_of(params, name):
    return params[name].description if name in params else None


MODULES = [enum, dataclasses, datetime]


@contract("P20", "mapping", [C + "NamespaceMapping.__init__", C + "NamespaceMapping.get"], covers=("found", "refused", "ambiguous", "none"), samples=400)
def mapping(g):
    "Modules map one to one to schemas: each to what was given, none at all is refused, two to the same is refused."
    n = g.choice("modules", [0, 1, 2, 3])
    names = [g.opt(f"{i}.default", g.text(f"{i}.schema")) for i in range(n)]
    given = {m: v for m, v in zip(MODULES, names)}
    if g.flag("absent"):
        m = g.new(ps.NamespaceMapping)
        given = {}
    else:
        r = g.call(made_mapping, given)
        same = g.Or(*[g.eq(a, b) for i, a in enumerate(names) for b in names[:i]])
        if r is None:
            g.ensure("refused only if two are the same", same)
            g.cover("ambiguous")
            return
        g.ensure("one to one", g.Not(same))
        m = r
    asked = g.choice("asked", MODULES)
    r = g.outcome(m, "get", asked.__name__)
    if asked in given:
        g.ensure("found", not r.raised, r)
        if not r.raised:
            g.ensure_eq("the schema of the module", r.value, given[asked])
        g.cover("found")
    else:
        g.ensure("refused", r.raised and isinstance(r.value, ValueError), r)
        g.cover("refused")
    g.cover("none")


def made_mapping(d):
    try:
        return ps.NamespaceMapping(d)
    except ValueError:
        return None


# ---------------------------------------------------------------------- what the options of a generator ask for
EM, SM, AM = ps.EnumMode, ps.StructMode, ps.ArrayMode
NOT_TYPE_INLINE = [m for m in EM if m not in (EM.TYPE, EM.INLINE)]
LISTS = [AM.JSON, AM.RELATION]
# dialect: (class, modes of enumerations, of structures, of arrays: the first is the default), what is never made
GENERATORS = {
    "postgresql": ("PostgreSQLGenerator", [EM.TYPE] + [m for m in EM if m not in (EM.TYPE, EM.INLINE)], [SM.TYPE] + [m for m in SM if m not in (SM.TYPE, SM.INLINE)],
                   [AM.ARRAY] + [m for m in AM if m is not AM.ARRAY], (), True),
    "mysql": ("MySQLGenerator", [EM.INLINE] + [m for m in EM if m not in (EM.TYPE, EM.INLINE)], [SM.JSON], LISTS, (), False),
    "mssql": ("MSSQLGenerator", [EM.RELATION] + [m for m in NOT_TYPE_INLINE if m is not EM.RELATION], [SM.JSON], LISTS, (), True),
    "oracle": ("OracleGenerator", [EM.RELATION] + [m for m in NOT_TYPE_INLINE if m is not EM.RELATION], [SM.JSON], LISTS, (), False),
    "redshift": ("RedshiftGenerator", [None, EM.CHECK], [SM.JSON], LISTS, ("foreign_constraints",), True),
    "snowflake": ("SnowflakeGenerator", [EM.CHECK], [SM.JSON], LISTS, ("foreign_constraints", "check_constraints"), True),
    "trino": ("TrinoGenerator", [EM.CHECK] + [m for m in EM if m is not EM.CHECK], [SM.JSON] + [m for m in SM if m is not SM.JSON],
              [AM.JSON] + [m for m in AM if m is not AM.JSON], (), True),
    "delta": ("DeltaGenerator", [EM.CHECK], [SM.INLINE] + [m for m in SM if m not in (SM.TYPE, SM.INLINE)], [AM.ARRAY] + [m for m in AM if m is not AM.ARRAY],
              ("foreign_constraints", "check_constraints"), True),
}
REDSHIFT_DEFAULT = EM.RELATION
BG = "pysqlsync/base.py::BaseGenerator."
SIZES = {uuid.UUID: 16, ipaddress.IPv4Address: 4, ipaddress.IPv6Address: 16}


# the types that a database has none of, or means something else by: what they are called there
TEXTS = ("varchar(max)", "nvarchar(max)")
REPLACED = {
    "postgresql": {JsonType: ("jsonb", "json")},
    "mysql": {bool: ("tinyint", "boolean", "bit"), datetime.datetime: ("datetime", "datetime(6)"), uuid.UUID: ("binary(16)",)},
    "mssql": {bool: ("bit",), datetime.datetime: ("datetime2",), str: TEXTS, JsonType: TEXTS, uuid.UUID: ("binary(16)", "uniqueidentifier")},
    "oracle": {bytes: ("blob",), datetime.time: ("interval day to second",), datetime.datetime: ("timestamp",), int: ("number",), int8: ("number",),
               int16: ("number", "smallint"), int32: ("number", "integer"), int64: ("number",), str: ("clob",), JsonType: ("clob", "json"), uuid.UUID: ("raw(16)",)},
    "redshift": {JsonType: ("text", "super"), uuid.UUID: ("varbyte(16)",)},
    "snowflake": {datetime.datetime: ("datetime", "timestamp", "timestamp_ntz"), uuid.UUID: ("binary(16)",)},
    "delta": {datetime.datetime: ("timestamp", "timestamp_ntz"), float: ("double",), float32: ("float", "real"), float64: ("double",), str: ("string",),
              JsonType: ("string", "variant"), uuid.UUID: ("binary",)},
    "trino": {},
}


def width(t):
    "The bytes of a binary type, or None."
    n = getattr(t, "storage", None)
    return n if n is not None else getattr(t, "limit", None)


def options_of_generator(dialect):
    cls, enums, structs, arrays, never, qualified_names = GENERATORS[dialect]

    def check(g):
        module = importlib.import_module(f"pysqlsync.dialect.{dialect}.generator")
        which = g.choice("which", ["enum_mode", "struct_mode", "array_mode"])
        modes = {"enum_mode": (EM, enums), "struct_mode": (SM, structs), "array_mode": (AM, arrays)}
        given = {}
        for name, (kind, allowed) in modes.items():
            some = [None] + [m for m in allowed if m is not None]
            given[name] = g.choice(name, [None] + list(kind)) if name == which else g.choice(name, some[:1] + some[-1:])
        flags = {name: g.bool(name) for name in ("foreign_constraints", "initialize_tables", "auto_default")}
        skip = (MaxLength,) if g.flag("skip") else ()
        space = g.name_text("schema")
        from pysqlsync.formation.mutation import MutatorOptions

        sync = g.new(MutatorOptions, g.bool("drop.enum"), g.bool("drop.struct"), g.bool("drop.table"), g.bool("drop.namespace"))
        options = g.new(GeneratorOptions, namespaces={datetime: space}, synchronization=sync, skip_annotations=skip, **given, **flags)
        r = g.outcome(Generators(), "make", getattr(module, cls), options)
        refused = [name for name, (kind, allowed) in modes.items() if given[name] is not None and given[name] not in allowed]
        if refused:
            g.ensure("a mode the dialect has nothing for is refused", r.raised and isinstance(r.value, ot.FormationError), r)
            g.cover("refused")
            return
        g.ensure("accepted", not r.raised, r)
        if r.raised:
            return
        g.cover("made")
        gen = r.value
        o = g.attr(g.attr(gen, "converter"), "options")
        for name, (kind, allowed) in modes.items():
            default = REDSHIFT_DEFAULT if allowed[0] is None else allowed[0]
            g.ensure(f"{name}: as given, or the default", g.attr(o, name) is (default if given[name] is None else given[name]), g.attr(o, name))
        for name in ("foreign_constraints", "initialize_tables"):
            g.ensure_eq(f"{name}: as given, unless the dialect has none", g.attr(o, name), False if name in never else flags[name])
        g.ensure_eq("check constraints unless the dialect has none", g.attr(o, "check_constraints"), "check_constraints" not in never)
        g.ensure_eq("schemas, or prefixed names", g.attr(o, "qualified_names"), qualified_names)
        if dialect != "mysql":  # (text columns of MySQL have no defaults)
            g.ensure_eq("auto_default: as given", g.attr(o, "auto_default"), flags["auto_default"])
        g.ensure_eq("annotations to skip", g.attr(o, "skip_annotations"), skip)
        g.ensure_eq("modules in schemas", g.method(g.attr(o, "namespaces"), "get", "datetime"), space)
        if dialect != "trino":
            g.ensure("objects are made as the dialect makes them", g.attr(o, "factory") is g.attr(gen, "factory"))
            g.ensure("synchronized as asked", g.attr(g.attr(gen, "mutator"), "options") is sync)
        for t, n in SIZES.items():
            k = g.method(g.attr(o, "substitutions"), "get", t)
            if k is not None:
                g.ensure_eq(f"{t.__name__} fits exactly", width(k), n)
        for t, names in REPLACED[dialect].items():
            k = g.method(g.attr(o, "substitutions"), "get", t)
            g.ensure(f"{t}: a type that the database has", k is not None and g.truth(g.Or(*[g.eq(g.str(k), n) for n in names])), k)
        g.ensure("starts with an empty database", g.eq(g.length(g.to_list(g.method(g.attr(g.attr(gen, "state"), "namespaces"), "values"))), 0))
    check.__name__ = f"options_{dialect}"
    check.__doc__ = f"{dialect}: every option reaches the conversion of classes; modes the dialect has nothing for are refused."
    return check


class Generators:
    def make(self, cls, options):
        return cls(options)


for _d, _spec in GENERATORS.items():
    contract("P20", f"options_{_d}", [f"pysqlsync/dialect/{_d}/generator.py::{_spec[0]}.__init__", BG + "__init__", BG + "reset", BG + "_check_mode", BG + "check_enum_mode",
                                BG + "check_struct_mode", BG + "check_array_mode", D + "__init__"],
             covers=("made", "refused") if _d != "trino" else ("made",), samples=300)(options_of_generator(_d))


# ---------------------------------------------------------------------- kinds of types
class KindEnum(enum.Enum):
    A = "a"


@dataclasses.dataclass
class KindStruct:
    x: int


@dataclasses.dataclass
class KindEntity:
    name: str
    id: PrimaryKey[int]


@dataclasses.dataclass
class KindOther:
    id: PrimaryKey[Annotated[str, MaxLength(8)]]


class KindPlain:
    pass


V4, V6 = ipaddress.IPv4Address, ipaddress.IPv6Address
# a type, and what it is: (s)imple, (e)ntity, st(r)ucture, re(f)erence, (i)nternet address
KINDS = [
    (bool, "s"), (int, "s"), (float, "s"), (str, "s"), (decimal.Decimal, "s"), (datetime.datetime, "s"), (datetime.date, "s"), (datetime.time, "s"),
    (datetime.timedelta, "s"), (uuid.UUID, "s"), (JsonType, "s"), (V4, "si"), (V6, "si"), (KindEnum, "s"), (Optional[int], "s"), (Optional[KindEnum], "s"),
    (Annotated[str, MaxLength(4)], "s"), (Optional[Annotated[str, MaxLength(4)]], "s"), (int16, "s"), (Optional[V4], "s"),
    (Union[V4, V6], "i"), (Annotated[Union[V4, V6], "x"], "i"), (Union[V4, str], ""), (Union[V6, str], ""), (Union[V4, V6, str], ""), (Union[V4, V6, None], ""), (Union[int, str], ""),
    (KindEntity, "ef"), (KindOther, "ef"), (Union[KindEntity, KindOther], "f"), (Annotated[Union[KindEntity, KindOther], "x"], "f"), (Union[KindEntity, KindStruct], ""),
    (KindStruct, "r"), (Optional[KindStruct], ""), (Optional[list[int]], ""), (list[int], ""), (set[str], ""), (dict, ""), (KindPlain, ""),
]


@contract("P20", "kinds", [I + f for f in ("is_simple_type", "is_entity_type", "is_struct_type", "is_reference_type", "is_ip_address_type", "dataclass_has_primary_key")],
          covers=("simple", "entity", "reference", "address"), samples=300, bounded="a vocabulary of types")
def kinds_of_types(g):
    "Simple values, classes with a key (tables), classes without (structures), references and addresses are told apart."
    from pysqlsync.formation import inspection as fi

    t, is_a = g.choice("type", KINDS)
    if g.symbolic:
        g.unsupported("types of the typing module are native")
    for letter, what, f in (("s", "simple", fi.is_simple_type), ("e", "entity", fi.is_entity_type), ("r", "structure", fi.is_struct_type),
                            ("f", "reference", lambda t: fi.is_reference_type(t, KindStruct)), ("i", "address", fi.is_ip_address_type)):
        got = f(t)
        g.ensure(f"{what}, or not", bool(got) == (letter in is_a), (t, got))
        if got:
            g.cover(what)


@contract("P20", "entities", [I + "get_entity_types"], covers=("found",), samples=60, bounded="modules with a few classes")
def entities(g):
    "The tables of modules are the classes with a key that one of these modules defines, each once."
    from pysqlsync.formation import inspection as fi

    if g.symbolic:
        g.unsupported("modules are native")
    names = ["contracts_p20_a", "contracts_p20_b", "contracts_p20_c"]
    modules = [types.ModuleType(n) for n in names]
    sys.modules.update(zip(names, modules))
    try:
        classes = []
        for i in range(g.choice("classes", [0, 1, 3, 6])):
            home, key = g.choice("home", modules), g.bool("key")
            c = dataclasses.make_dataclass(f"C{i}", [("x", int), ("id", PrimaryKey[int] if key else int)], module=home.__name__)
            setattr(home, c.__name__, c)
            if g.bool("imported"):
                setattr(g.choice("into", modules), c.__name__, c)
            classes.append((c, home, key))
            setattr(home, "number", 1)
        asked = [m for m in modules if g.bool("asked")]
        got = fi.get_entity_types(asked)
        want = {c.__name__ for c, home, key in classes if key and home in asked}
        g.ensure("classes with a key, of these modules", {c.__name__ for c in got} == want, (got, want))
        if want:
            g.cover("found")
    finally:
        for n in names:
            sys.modules.pop(n, None)


# ---------------------------------------------------------------------- functions that convert without a converter at hand
@contract("P20", "entry", [D.split("::")[0] + "::" + n for n in ("dataclass_to_table", "dataclass_to_struct", "module_to_catalog", "modules_to_catalog")] + [D + "modules_to_catalog", D + "__init__"],
          covers=("table", "struct", "catalog", "options", "defaults"), samples=1)
def entry(g):
    "What is converted is what was given, with the options given or else those of the class of options."
    if not g.symbolic:
        return
    from pysqlsync.formation import inspection

    which = g.choice("which", ["dataclass_to_table", "dataclass_to_struct", "module_to_catalog", "modules_to_catalog"])
    given = g.flag("options given")
    options = g.obj(ps.DataclassConverterOptions, enum_mode=ps.EnumMode.CHECK, struct_mode=ps.StructMode.JSON, array_mode=ps.ArrayMode.RELATION, qualified_names=False,
                    foreign_constraints=False, check_constraints=False, initialize_tables=True, auto_default=True, unique_constraint_names=False, extra_numeric_types=True)
    for n in ("dataclass_to_table", "dataclass_to_struct", "dataclasses_to_catalog"):
        g.override(getattr(ps.DataclassConverter, n), lambda e, c, x, n=n: (n, c.options, x))
    for m in (inspection, ps):
        g.override(m.get_entity_types, lambda e, modules: ("entities", modules))
    one = g.opaque("one")
    what = g.list_of(one, g.opaque("two")) if which == "modules_to_catalog" else one
    if g.truth(g.flag("no options named")) and not given:
        r = g.outcome(getattr(ps, which), None, what)
    else:
        r = g.outcome(getattr(ps, which), None, what, options=options if given else None)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    name, used, x = g.items(r.value)
    table = which.startswith("dataclass")
    g.ensure("converted to what was asked for", name == (which if table else "dataclasses_to_catalog"), name)
    if table:
        g.ensure("the class given", x is what, which)
        g.cover("table" if which == "dataclass_to_table" else "struct")
    else:
        marker, modules = g.items(x)
        if which == "modules_to_catalog":
            g.ensure("the entities of the modules given", marker == "entities", which)
            g.ensure_eq("all the modules, in order", g.to_list(modules), what)
        else:
            g.ensure("the entities of the module given", marker == "entities" and g.truth(g.eq(g.length(modules), 1)) and g.items(modules)[0] is one, which)
        g.cover("catalog")
    if given:
        g.ensure("with the options given", used is options, which)
        g.cover("options")
    else:
        for f in dataclasses.fields(ps.DataclassConverterOptions):
            if f.default is not dataclasses.MISSING:
                g.ensure_eq(f"the default of {f.name}", g.attr(used, f.name), f.default)
        g.cover("defaults")
