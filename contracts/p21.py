"""P21 A data class derived from a table describes that table."""
from __future__ import annotations

import dataclasses
import datetime
import decimal
import keyword
import sys
import types
import typing
import uuid

from strong_typing.auxiliary import Length, MaxLength, Precision, TimePrecision, float32, float64, int16, int32, int64
from strong_typing.core import JsonType

import pysqlsync.formation.sql_to_py as sp
import pysqlsync.model.data_types as dt
from pysqlsync.formation import object_types as ot
from pysqlsync.formation.inspection import is_entity_type
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId
from pysqlsync.model.key_types import Unique

from pyvc.contract import contract, finding

S = "pysqlsync/formation/sql_to_py.py::"
PLAIN = {
    dt.SqlBooleanType: bool, dt.SqlRealType: float32, dt.SqlDoubleType: float64, dt.SqlDateType: datetime.date, dt.SqlUuidType: uuid.UUID, dt.SqlJsonType: JsonType,
}
SIZED = {  # SQL type: attribute, Python type, annotation
    dt.SqlFloatType: ("precision", float, Precision), dt.SqlTimestampType: ("precision", datetime.datetime, TimePrecision),
    dt.SqlTimeType: ("precision", datetime.time, TimePrecision), dt.SqlFixedCharacterType: ("limit", str, Length), dt.SqlVariableCharacterType: ("limit", str, MaxLength),
}
WIDTHS = {2: int16, 4: int32, 8: int64, 3: int}


def annotated(g, t):
    "The type and its annotations."
    if typing.get_origin(t) is typing.Annotated:
        return t.__origin__, list(t.__metadata__)
    return t, []


@contract("P21", "types", [S + "sql_type_to_python"], bounded="lengths and precisions among a few", covers=("plain", "integer", "unlimited", "limited", "decimal", "array", "user type", "refused"))
def of_type(g):
    "The Python type of a SQL type has its width, length and precision."
    kind = g.choice("kind", ["plain", "integer", "sized", "decimal", "array", "user type", "other"])
    if kind == "plain":
        cls = g.choice("type", list(PLAIN))
        t, want, notes = g.new(cls), PLAIN[cls], None
        g.cover("plain")
    elif kind == "integer":
        width = g.choice("width", list(WIDTHS))
        t, want, notes = g.new(dt.SqlIntegerType, width), WIDTHS[width], None
        g.cover("integer")
    elif kind == "sized":
        cls = g.choice("type", list(SIZED))
        attribute, want, note = SIZED[cls]
        # texts of types are made of numbers: any few of them will do
        size = g.choice("size", [None, 0, 1, 6, 24, 255, 65535])
        t = g.new(cls, **{attribute: size})
        notes = [] if size is None else [note(size)]
        g.cover("unlimited" if size is None else "limited")
    elif kind == "decimal":
        precision = g.choice("precision", [None, 1, 10, 38])
        scale = g.choice("scale", [None, 0, 2]) if precision else None
        t, want = g.new(dt.SqlDecimalType, precision, scale), decimal.Decimal
        notes = [] if precision is None else [Precision(precision, scale or 0)]
        g.cover("decimal")
    elif kind == "array":
        t = g.new(dt.SqlArrayType, g.new(dt.SqlVariableCharacterType, 10))
        r = g.call(sp.sql_type_to_python, t)
        g.ensure("a list of the type of the elements", r == list[typing.Annotated[str, MaxLength(10)]], r)
        g.cover("array")
        return
    elif kind == "user type":
        ns = g.choice("schema", [None, "s"])
        id_ = g.new(g.choice("id", [QualifiedId, PrefixedId]), ns, "State")
        r = g.call(sp.sql_type_to_python, g.new(dt.SqlUserDefinedType, id_))
        g.ensure_eq("named", r, g.attr(id_, "compact_id"))
        g.cover("user type")
        return
    else:
        r = g.call(Outcome, g.choice("type", [dt.SqlIntervalType(), dt.SqlVariableBinaryType(), dt.SqlEnumType(["a"]), dt.SqlStructType([])]))
        g.ensure("a type that no Python type stands for is refused", r.refused, r)
        g.cover("refused")
        return
    r = g.call(sp.sql_type_to_python, t)
    if notes is None:
        g.ensure("the Python type", r == want, r)
    else:
        got, marks = annotated(g, r)
        g.ensure("the Python type", got is want, r)
        g.ensure("its size", marks == notes, marks)


class Outcome:
    "Whether a type is refused."

    def __init__(self, t):
        self.refused = False
        try:
            sp.sql_type_to_python(t)
        except TypeError:
            self.refused = True


@contract("P21", "names", [S + "safe_id"], covers=("keyword", "other"))
def names(g):
    "A name that is a keyword has an underscore after it; other names are left alone."
    if g.flag("keyword"):
        k = g.choice("word", keyword.kwlist)
        g.ensure_eq("an underscore", g.call(sp.safe_id, k), k + "_")
        g.cover("keyword")
    else:
        n = g.name_text("name")
        g.assume(g.And(*[g.Not(g.eq(n, k)) for k in keyword.kwlist]))
        g.override(keyword.iskeyword, lambda e, s: False)
        g.ensure_eq("the same name", g.call(sp.safe_id, n), n)
        g.cover("other")


# ---------------------------------------------------------------------- whole classes
TYPES = [dt.SqlBooleanType(), dt.SqlIntegerType(2), dt.SqlIntegerType(4), dt.SqlIntegerType(8), dt.SqlDoubleType(), dt.SqlDecimalType(10, 2), dt.SqlTimestampType(),
         dt.SqlDateType(), dt.SqlVariableCharacterType(), dt.SqlVariableCharacterType(255), dt.SqlFixedCharacterType(8), dt.SqlUuidType(),
         dt.SqlArrayType(dt.SqlIntegerType(4))]


def derived(g):
    "Tables of two schemas, and the modules they are mapped to."
    if g.symbolic:
        g.unsupported("the type annotations of the standard library are made at run time")
    rng = g.rng
    modules = {}
    for s in ("one", None):
        m = types.ModuleType(f"derived_{s}")
        sys.modules[m.__name__] = m
        modules[s] = m
    tables = []
    for i, name in enumerate(rng.sample(["Alpha", "Beta", "class", "Delta"], rng.randint(1, 3))):
        scope = rng.choice(["one", None])
        own = rng.sample(["id", "name", "from", "value", "other", "Class"], rng.randint(1, 5))
        columns = [ot.Column(LocalId(n), rng.choice(TYPES), nullable=rng.random() < 0.5, description=rng.choice(DESCRIPTIONS)) for n in own]
        primary = rng.sample(own, 2) if len(own) > 2 and rng.random() < 0.2 else own[:1]
        for c in columns:
            if c.name.id in primary:
                c.nullable = False
        constraints = []
        for c in columns[1:]:
            if tables and c.name.id not in primary and rng.random() < 0.5:
                refs = [ot.ConstraintReference(t.name, t.primary_key[:1]) for t in rng.sample(tables, rng.randint(1, len(tables)))]
                if len(refs) == 1:
                    constraints.append(ot.ForeignConstraint(LocalId(f"fk_{c.name.id}"), (c.name,), refs[0]))
                else:
                    constraints.append(ot.DiscriminatedConstraint(LocalId(f"dk_{c.name.id}"), (c.name,), refs))
            elif rng.random() < 0.3:
                constraints.append(ot.UniqueConstraint(LocalId(f"uq_{c.name.id}"), (c.name,)))
        tables.append(ot.Table(QualifiedId(scope, name), columns, primary_key=tuple(LocalId(n) for n in primary), constraints=constraints, description=rng.choice(DESCRIPTIONS)))
    return modules, tables


DESCRIPTIONS = [None, None, "What it is.", "It's \"quoted\".", "C:\\new folder", "Three \"\"\" quotes", "A sentence which is so long that it does not fit in a line of the usual width, "
                "and therefore is continued in the following line, as many times as necessary to hold all of the text.", "Ends with a backslash\\"]


def described(cls):
    "The parts of the documentation of a class, up to white space."
    from strong_typing.docstring import parse_type

    words = lambda s: " ".join((s or "").split())
    if not cls.__doc__:
        return ("", "", {})
    d = parse_type(cls)
    return (words(d.short_description), words(d.long_description), {k: words(p.description) for k, p in d.params.items()})


def safe(n):
    return n + "_" if keyword.iskeyword(n) else n


def reference(t, modules, ref):
    n = safe(ref.table.local_id)
    return n, f"{modules[ref.table.scope_id].__name__}.{n}", ref.table.scope_id == t.name.scope_id


def spelled(t):
    return t.__forward_arg__ if isinstance(t, typing.ForwardRef) else t


def check_class(g, t, cls, modules):
    m = modules[t.name.scope_id]
    g.ensure("the class has the name of the table", cls.__name__ == safe(t.name.local_id), cls)
    g.ensure("it is in the module of the schema", cls.__module__ == m.__name__ and vars(m).get(cls.__name__) is cls, cls.__module__)
    g.ensure("it has the description of the table", (cls.__doc__ or "").startswith(t.description or ""), cls.__doc__)
    fields = {f.name: f for f in dataclasses.fields(cls)}
    g.ensure("one field per column, in the order of the columns", list(fields) == [safe(n.id) for n in (c.name for c in t.columns.values())], list(fields))
    refs = {}
    for k in t.constraints.values():
        if isinstance(k, ot.ForeignConstraint):
            refs[k.foreign_columns[0].id] = [k.reference]
        elif isinstance(k, ot.DiscriminatedConstraint):
            refs[k.foreign_columns[0].id] = k.references
    for c in t.columns.values():
        f = fields[safe(c.name.id)]
        typ = f.type
        if c.description:
            g.ensure("the description of a column", f":param {f.name}: {c.description}" in cls.__doc__, cls.__doc__)
        g.ensure("no default", f.default is dataclasses.MISSING, f)
        if c.name.id in refs:
            args = list(typing.get_args(typ)) if typing.get_origin(typ) is typing.Union else [typ]
            g.ensure("a reference is optional exactly if the column is nullable", (type(None) in args) == bool(c.nullable), typ)
            got = [spelled(a) for a in args if a is not type(None)]
            want = [reference(t, modules, r) for r in refs[c.name.id]]
            g.ensure("a reference to each class", len(got) == len(want) and all(any(w[1] == a or w[2] and w[0] == a for a in got) for w in want), (got, want))
            if all(w[2] for w in want):
                g.ensure("a class of the same module is found by its name", {eval(a, vars(m)) for a in got} == {vars(m)[w[0]] for w in want}, got)
            g.cover("reference")
            continue
        if t.primary_key == (c.name,):
            from pysqlsync.model.properties import is_primary_key_type

            g.ensure("the primary key is marked", is_primary_key_type(typ), typ)
            g.cover("primary key")
            notes = [x for x in typ.__metadata__ if type(x).__name__ != "PrimaryKeyTag"]
            typ = typing.Annotated[(typ.__origin__, *notes)] if notes else typ.__origin__
        else:
            args = typing.get_args(typ) if typing.get_origin(typ) is typing.Union else ()
            g.ensure("optional exactly if the column is nullable", (type(None) in args) == bool(c.nullable), typ)
            if c.nullable:
                g.ensure("optional, nothing else", len(args) == 2, typ)
                typ = next(a for a in args if a is not type(None))
        g.ensure("the type of the column", typ == sp.sql_type_to_python(c.data_type), (typ, c.data_type))
        g.cover("plain")


@contract("P21", "classes", [S + "SqlConverter.column_to_field", S + "SqlConverter.table_to_dataclass", S + "SqlConverter.qual_to_module", S + "table_to_dataclass", S + "SqlConverter.__init__"],
          covers=("plain", "reference", "primary key"), samples=300, bounded="types are made by the standard library: random tables of up to five columns, in two schemas")
def classes(g):
    modules, tables = derived(g)
    options = sp.SqlConverterOptions(namespaces=modules)
    for t in tables:
        check_class(g, t, sp.table_to_dataclass(t, options), modules)


@contract("P21", "code", ["pysqlsync/python_types.py::module_to_stream", "pysqlsync/python_types.py::module_to_code", "pysqlsync/python_types.py::dataclass_to_stream"],
          covers=("read",), samples=200, bounded="types are made by the standard library: random tables of up to five columns, in two schemas")
def code(g):
    "The Python code of the classes of a module, run, makes classes with the same fields, types and descriptions."
    from pysqlsync.python_types import module_to_code

    modules, tables = derived(g)
    for t in tables:
        # classes of other modules have to be imported by hand
        t.constraints = type(t.constraints)([k for k in t.constraints.values() if not isinstance(k, ot.ReferenceConstraint)
                                             or all(r.table.scope_id == t.name.scope_id for r in (k.references if isinstance(k, ot.DiscriminatedConstraint) else [k.reference]))])
    options = sp.SqlConverterOptions(namespaces=modules)
    for t in tables:
        sp.table_to_dataclass(t, options)
    for m in modules.values():
        text = module_to_code(m)
        copy = types.ModuleType(m.__name__ + "_copy")
        sys.modules[copy.__name__] = copy
        exec(compile(text, copy.__name__, "exec"), vars(copy))
        for n, cls in [(n, v) for n, v in vars(m).items() if isinstance(v, type)]:
            again = vars(copy).get(n)
            g.ensure("the class is there", again is not None and dataclasses.is_dataclass(again), text)
            a, b = (typing.get_type_hints(c, vars(x), include_extras=True) for c, x in ((cls, m), (again, copy)))
            strip = lambda h: {k: str(v).replace("_copy.", ".") for k, v in h.items()}
            g.ensure("the same fields of the same types", strip(a) == strip(b), (strip(a), strip(b)))
            g.ensure("the same documentation", described(cls) == described(again), (described(cls), described(again)))
            g.ensure("the same order", [f.name for f in dataclasses.fields(cls)] == [f.name for f in dataclasses.fields(again)], text)
            g.ensure("the same descriptions of fields", [dict(f.metadata) for f in dataclasses.fields(cls)] == [dict(f.metadata) for f in dataclasses.fields(again)], text)
            g.cover("read")


@contract("P21", "code_of_enumerations", ["pysqlsync/python_types.py::enum_class_to_code", "pysqlsync/python_types.py::enum_class_to_stream", "pysqlsync/python_types.py::module_to_code",
                                          "pysqlsync/python_types.py::dataclasses_to_code", "pysqlsync/python_types.py::dataclass_to_code"],
          covers=("members", "documented member"), samples=200, bounded="enumerations of up to four members with texts or integers as values; two data classes")
def code_of_enumerations(g):
    "The Python code of an enumeration, run, makes an enumeration with the same members, values and descriptions."
    import enum

    from pysqlsync import python_types as pt

    if g.symbolic:
        g.unsupported("enumerations are made at run time")
    m = types.ModuleType("enumerations")
    sys.modules[m.__name__] = m
    texts = ["a", "it's", 'say "x"', "back\\slash", "two\nlines", ""]
    names = g.rng.sample(["A", "b_c", "D", "E"], g.rng.randint(1, 4))
    values = g.rng.sample(texts if g.bool("texts") else [0, 1, -5, 7], len(names))
    cls = enum.Enum("Kind", list(zip(names, values)), module=m.__name__)
    cls.__doc__ = g.choice("documentation", [None, "What it is.", "It's \"x\"."])
    docs = {}
    for x in cls:
        if g.bool("documented"):
            docs[x.name] = x.__doc__ = g.choice("documentation of a member", ["One.", "It's one."])
    m.Kind = cls
    for what, text in (("alone", "import enum\n" + pt.enum_class_to_code(cls)), ("in a module", pt.module_to_code(m))):
        space = {"__name__": "enumerations_copy"}
        exec(compile(text, "copy", "exec", dont_inherit=True), space)
        again = space.get("Kind")
        g.ensure(f"{what}: the enumeration is there", isinstance(again, type) and issubclass(again, enum.Enum), text)
        g.ensure_eq(f"{what}: the same members and values", [(x.name, x.value) for x in again], list(zip(names, values)))
        if cls.__doc__:
            g.ensure_eq(f"{what}: the same description", again.__doc__, cls.__doc__)
        for n, doc in docs.items():
            g.ensure_eq(f"{what}: the same description of a member", again[n].__doc__, doc)
            g.cover("documented member")
        g.cover("members")
    made = [dataclasses.make_dataclass(n, [(f, t) for f, t in zip(("a", "b"), g.rng.sample([int, str, bool, float], 2))]) for n in ("One", "Two")]
    for one in made:
        one.__module__ = m.__name__
        setattr(m, one.__name__, one)
    fields = lambda c: [(f.name, f.type) for f in dataclasses.fields(c)]
    space = {"__name__": "enumerations_copy", "dataclasses": dataclasses}
    sys.modules.setdefault("enumerations_copy", types.ModuleType("enumerations_copy"))
    exec(compile(pt.dataclasses_to_code(made), "copy", "exec", dont_inherit=True), space)
    for one in made:
        g.ensure_eq("each class, the same fields", fields(space[one.__name__]), fields(one))
    space2 = {"__name__": "enumerations_copy", "dataclasses": dataclasses}
    exec(compile(pt.dataclass_to_code(made[0]), "copy", "exec", dont_inherit=True), space2)
    g.ensure("a class alone", fields(space2["One"]) == fields(made[0]) and "Two" not in space2, list(space2))


class MadeField:
    "A field of a data-class, as the standard library makes it."

    def __init__(self, default=dataclasses.MISSING, metadata=None):
        self.default = default
        self.metadata = metadata


class Module_:
    "A module."

    def __init__(self, name):
        self.__name__ = name


@contract("P21", "field", [S + "SqlConverter.column_to_field", S + "SqlConverter.qual_to_module"],
          covers=("plain", "reference", "primary key", "described", "default"), assumes=("dataclasses.field",))
def field(g):
    "One column: the name, the type, the mark, the reference, the description of its field."
    if g.symbolic:
        g.override(dataclasses.field, lambda e, **k: e.call(MadeField, [], k))
        g.override(keyword.iskeyword, lambda e, s: False)
    name = g.name_text("name")
    other = g.name_text("other")
    g.assume(g.Not(g.eq(name, other)))
    g.assume(g.And(*[g.Not(g.eq(name, k)) for k in keyword.kwlist]))
    own, target = g.new(LocalId, name), g.new(LocalId, other)
    t = g.choice("type", [TYPES[3], TYPES[9]])
    nullable = g.flag("nullable")
    description = g.opt("description", lambda n: g.text(n))
    default = g.opt("default", lambda n: g.text(n))
    key = g.choice("key", ["own", "other", "both"])
    g.assume(not (nullable and key != "other"))
    primary = {"own": (own,), "other": (target,), "both": (own, target)}[key]
    column = g.new(ot.Column, own, t, nullable, default=default, description=description)
    modules = {"one": g.new(Module_, "first"), None: g.new(Module_, "second")}
    scope = g.choice("schema", ["one", None])
    to = [g.choice("schema of the target", ["one", None]), g.choice("schema of another target", ["one", None])]
    refs = [g.new(ot.ConstraintReference, g.new(QualifiedId, s, n), (target,)) for s, n in zip(to, ("Alpha", "Beta"))]
    kind = g.choice("constraint", ["none", "unique", "of another column", "foreign", "second of a foreign key", "discriminated"])
    constraints = []
    if kind == "unique":
        constraints = [g.new(ot.UniqueConstraint, g.new(LocalId, "k"), (own,))]
    elif kind == "of another column":
        constraints = [g.new(ot.ForeignConstraint, g.new(LocalId, "k"), (target,), refs[0])]
    elif kind == "foreign":
        constraints = [g.new(ot.ForeignConstraint, g.new(LocalId, "k"), (own,), refs[0])]
    elif kind == "second of a foreign key":
        constraints = [g.new(ot.ForeignConstraint, g.new(LocalId, "k"), (target, own), refs[0])]
    elif kind == "discriminated":
        constraints = [g.new(ot.DiscriminatedConstraint, g.new(LocalId, "k"), (own,), refs)]
    others = [g.new(ot.Column, target, t, False)]
    table = g.new(ot.Table, g.new(QualifiedId, scope, "T"), [column, *others], primary_key=primary, constraints=constraints)
    converter = g.new(sp.SqlConverter, g.new(sp.SqlConverterOptions, namespaces=modules))
    r = g.method(converter, "column_to_field", table, column)
    field_name, typ, made = g.item(r, 0), g.item(r, 1), g.item(r, 2)
    g.ensure_eq("the name of the column", field_name, name)
    d = g.attr(made, "default")
    if g.force(default) is None:
        g.ensure("no default", d is dataclasses.MISSING, d)
    else:
        g.ensure("there is a default", d is not dataclasses.MISSING, d)
        g.cover("default")
    meta = g.attr(made, "metadata")
    if g.force(description) is None:
        g.ensure("no description", meta is None or not g.truth(g.has_key(meta, "description")), meta)
    else:
        g.ensure_eq("the description", g.method(meta, "get", "description"), description)
        g.cover("described")
    if kind in ("foreign", "second of a foreign key", "discriminated"):
        args = list(typing.get_args(typ)) if typing.get_origin(typ) is typing.Union else [typ]
        g.ensure("a reference is optional exactly if the column is nullable", (type(None) in args) == nullable, typ)
        names_ = [spelled(a) for a in args if a is not type(None)]
        want = [(n, f"{'first' if s else 'second'}.{n}", s == scope) for s, n in zip(to, ("Alpha", "Beta"))][:2 if kind == "discriminated" else 1]
        g.ensure("a reference to each class", len(names_) == len(want) and all(any(w[1] == a or w[2] and w[0] == a for a in names_) for w in want), typ)
        g.cover("reference")
        return
    plain = sp.sql_type_to_python(t)
    if key == "own":
        from pysqlsync.model.key_types import PrimaryKey

        g.ensure("marked as primary key", typ == PrimaryKey[plain], typ)
        g.cover("primary key")
    else:
        g.ensure("the type of the column, optional exactly if the column is nullable", typ == (typing.Optional[plain] if nullable else plain), typ)
        g.cover("plain")


def one_module():
    m = types.ModuleType("derived_finding")
    sys.modules[m.__name__] = m
    return m


@finding("P21")
def default_is_text():
    "Recorded defect: the default of a derived field is the SQL text of the default of the column."
    t = ot.Table(QualifiedId(None, "T"), [ot.Column(LocalId("id"), dt.SqlIntegerType(8), False), ot.Column(LocalId("n"), dt.SqlIntegerType(8), False, default="5")],
                 primary_key=(LocalId("id"),))
    cls = sp.table_to_dataclass(t, sp.SqlConverterOptions({None: one_module()}))
    return "an integer column with DEFAULT 5 has the default '5', a string, in the derived class" if cls.__dataclass_fields__["n"].default == "5" else None


@finding("P21")
def key_that_is_a_reference():
    "Recorded defect: a primary key column that references another table is not marked as primary key."
    m = one_module()
    ts = [ot.Table(QualifiedId(None, "T"), [ot.Column(LocalId("id"), dt.SqlIntegerType(8), False)], primary_key=(LocalId("id"),)),
          ot.Table(QualifiedId(None, "U"), [ot.Column(LocalId("id"), dt.SqlIntegerType(8), False)], primary_key=(LocalId("id"),),
                   constraints=[ot.ForeignConstraint(LocalId("fk"), (LocalId("id"),), ot.ConstraintReference(QualifiedId(None, "T"), (LocalId("id"),)))])]
    last = [sp.table_to_dataclass(t, sp.SqlConverterOptions({None: m})) for t in ts][-1]
    return "a table whose primary key is also a foreign key yields a class without a primary key" if not is_entity_type(last) else None


# ---------------------------------------------------------------------- classes made of classes
SCRATCH = "contracts_p21_scratch"


def fields_of_class(g, p, nested=True):
    "Fields of a class: (name, type, default, description)."
    out, defaults = [], False
    for i in range(g.choice(f"{p}.count", [1, 2, 4])):
        t = g.choice(f"{p}.type", [int, str, bool, typing.Annotated[str, MaxLength(20)], typing.Optional[int], Unique[int]])
        defaults = defaults or g.bool(f"{p}.defaults")
        base = int if t in (int, typing.Optional[int]) or t == Unique[int] else bool if t is bool else str
        d = {int: g.choice(f"{p}.int", [0, 7, -1]), bool: g.choice(f"{p}.bool", [True, False]), str: g.choice(f"{p}.str", ["", "x"])}[base]
        out.append((f"{p}_{i}" if g.bool(f"{p}.long") else f"{p}{i}", t, d if defaults else dataclasses.MISSING, g.choice(f"{p}.described", [None, f"About {p}{i}."])))
    return out


def class_of(name, fields, doc="A class."):
    c = dataclasses.make_dataclass(name, [(n, t) if d is dataclasses.MISSING else (n, t, dataclasses.field(default=d)) for n, t, d, _ in fields],
                                   module=SCRATCH)
    c.__doc__ = "\n".join([doc, "", *(f":param {n}: {x}" for n, _, _, x in fields if x)])
    setattr(sys.modules[SCRATCH], name, c)
    return c


def same_fields(g, what, cls, fields):
    got = [(f.name, f.type, f.default) for f in dataclasses.fields(cls)]
    want = [(n, t, d) for n, t, d, _ in fields]
    g.ensure(f"{what}: names, types and defaults of fields, in order", got == want, (got, want))


@contract("P21", "entity", ["pysqlsync/model/entity_types.py::make_entity", "pysqlsync/model/entity_types.py::key_value_fields"], covers=("made", "refused"),
          bounded="construction of data-classes is native", samples=150)
def entity(g):
    "A class made an entity has the same fields, the named one being the key and first; a key that is no field is refused."
    from pysqlsync.model.entity_types import make_entity
    from pysqlsync.model.key_types import PrimaryKey

    if g.symbolic:
        g.unsupported("construction of data-classes")
    sys.modules[SCRATCH] = types.ModuleType(SCRATCH)
    try:
        fields = fields_of_class(g, "f")
        # (the key comes first: with a default, nothing without one may follow)
        keys = [f for f in fields if f[2] is dataclasses.MISSING or fields[0][2] is not dataclasses.MISSING]
        g.assume(keys)
        cls = class_of("Thing", fields)
        if g.bool("absent"):
            try:
                r = make_entity(cls, "absent")
            except ValueError:
                r = None
            g.ensure("a key that is no field is refused", r is None, r)
            g.cover("refused")
            return
        key = g.choice("key", keys)
        r = make_entity(cls, key[0])
        same_fields(g, "entity", r, [(key[0], PrimaryKey[key[1]], key[2], None), *(f for f in fields if f is not key)])
        g.ensure("its name, module and description", (r.__name__, r.__module__, r.__doc__) == ("Thing", SCRATCH, cls.__doc__), r)
        g.ensure("it takes the place of the class", sys.modules[SCRATCH].Thing is r)
        same_fields(g, "the class itself", cls, fields)
        g.cover("made")
    finally:
        del sys.modules[SCRATCH]


@contract("P21", "flat", ["pysqlsync/util/dataclasses.py::flatten_dataclass", "pysqlsync/util/dataclasses.py::make_dataclass"], covers=("flattened", "made"),
          bounded="construction of data-classes is native", samples=150)
def flat(g):
    "A class with nested structures becomes a flat list of fields, in order, described as they were; of such a list a class is made."
    from pysqlsync.util.dataclasses import flatten_dataclass, make_dataclass
    from strong_typing.docstring import parse_type

    if g.symbolic:
        g.unsupported("construction of data-classes")
    module = sys.modules[SCRATCH] = types.ModuleType(SCRATCH)
    try:
        fields, want = [], []
        for i in range(g.choice("parts", [1, 2, 3])):
            if g.bool("nested"):
                inner = fields_of_class(g, f"n{i}_")
                struct = class_of(f"Inner{i}", inner, "A structure.")
                t = g.choice("optional", [struct, struct, typing.Optional[struct]])
                fields.append((f"part{i}", t, dataclasses.MISSING, g.choice("described", [None, "A part."])))
                want += [(f"part{i}__{n}", *rest) for n, *rest in inner]
            else:
                fs = fields_of_class(g, f"f{i}_")
                fs = [(n, t, dataclasses.MISSING, x) for n, t, _, x in fs]
                fields += fs
                want += fs
        cls = class_of("Whole", fields)
        got, doc = flatten_dataclass(cls)
        g.ensure("names, types and defaults of fields, in order", [(f.name, f.type, f.default) for f in got] == [(n, t, d) for n, t, d, _ in want], (got, want))
        told = {n: p.description for n, p in doc.params.items()}
        g.ensure("descriptions", {n: told.get(n) for n, *_ in want} == {n: x for n, _, _, x in want}, (told, want))
        g.cover("flattened")
        # a class has fields with a default last
        picked = [f for f in got if g.bool("picked")]
        picked = [f for f in picked if f.default is dataclasses.MISSING] + [f for f in picked if f.default is not dataclasses.MISSING]
        made = make_dataclass("Made", picked, module=module, docstring=doc)
        ws = {w[0]: w for w in want}
        same_fields(g, "made", made, [ws[f.name] for f in picked])
        g.ensure("where it belongs", module.Made is made and made.__module__ == SCRATCH, made)
        params = parse_type(made).params
        g.ensure("fields are described as they were, others are not", {n: p.description for n, p in params.items()} == {f.name: ws[f.name][3] for f in picked if ws[f.name][3]},
                 (params, picked))
        g.cover("made")
    finally:
        del sys.modules[SCRATCH]
