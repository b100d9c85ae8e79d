"""Shared by the contracts on definitions: dialects, arbitrary tables, reading of column and constraint definitions."""
import inspect
from dataclasses import dataclass

from pysqlsync.formation import mutation, object_types as ot
from pysqlsync.dialect.delta import object_types as de_ot
from pysqlsync.dialect.mssql import mutation as ms_mut, object_types as ms_ot
from pysqlsync.dialect.mysql import mutation as my_mut, object_types as my_ot
from pysqlsync.dialect.oracle import mutation as ora_mut, object_types as ora_ot
from pysqlsync.dialect.postgresql import mutation as pg_mut, object_types as pg_ot
from pysqlsync.dialect.snowflake import object_types as sf_ot
from pysqlsync.model.data_types import SqlEnumType, SqlTimestampType
from pysqlsync.model.id_types import LocalId

from spec import sql

from .common import column, exactly_one, default_tokens, key_of, qname_of, qualified, type_tokens

PRIVATE = "pysqlsync$"


@dataclass
class Dialect:
    name: str
    column: type
    table: type
    enum_table: type
    struct: type
    namespace: type
    mutator: type
    migrates: bool = False


def _d(name, factory, mut, migrates=False):
    f = factory()
    return Dialect(name, f.column_class, f.table_class, f.enum_table_class, f.struct_class, f.namespace_class, mut, migrates)


BASE = _d("ansi", ot.ObjectFactory, mutation.Mutator)
POSTGRESQL = _d("postgresql", pg_ot.PostgreSQLObjectFactory, pg_mut.PostgreSQLMutator, True)
MYSQL = _d("mysql", my_ot.MySQLObjectFactory, my_mut.MySQLMutator, True)
MSSQL = _d("mssql", ms_ot.MSSQLObjectFactory, ms_mut.MSSQLMutator)
ORACLE = _d("oracle", ora_ot.OracleObjectFactory, ora_mut.OracleMutator)
DELTA = _d("delta", de_ot.DeltaObjectFactory, mutation.Mutator)
SNOWFLAKE = _d("snowflake", sf_ot.SnowflakeObjectFactory, mutation.Mutator)


def first_line(g, text):
    "The text up to its first line break."
    if not g.symbolic:
        return text.split("\n", 1)[0]
    from pyvc.builtins_ import text_before

    if g.truth(g.contains(text, "\n")):
        return text_before(g.e, text, "\n")
    return text


def short_comment(g, c):
    d = g.force(c.description)
    return None if d is None else first_line(g, d)


# ---------------------------------------------------------------------- constraints
def references(g, p):
    return g.new(ot.ConstraintReference, qualified(g, f"{p}.table", ("qualified",)),
                 (g.new(LocalId, g.name_text(f"{p}.refcol")),))


def is_ddl(c):
    return not isinstance(c, ot.DiscriminatedConstraint)


def expected_constraint(g, c):
    "How the reader of SQL sees the definition of the constraint."
    names = lambda xs: g.map(xs, lambda x: x.id)
    n = c.name.id
    if isinstance(c, ot.UniqueConstraint):
        return ("unique", n, names(c.unique_columns))
    if isinstance(c, ot.ForeignConstraint):
        return ("foreign", n, names(c.foreign_columns), qname_of(g, c.reference.table), names(c.reference.columns))
    if isinstance(c, ot.CheckConstraint):
        return ("check", n, tuple(sql.lex(c.condition)))
    raise AssertionError


def check_constraint(g, what, got, c):
    exp = expected_constraint(g, c)
    if got[0] != exp[0]:
        g.fail(what, f"{got} instead of {exp}")
        return
    g.ensure_eq(f"{what}: name", got[1], exp[1])
    for a, b in zip(got[2:], exp[2:]):
        g.ensure_eq(f"{what}: definition", a, b)


# ---------------------------------------------------------------------- columns
def check_default(g, what, d, spec, c):
    got = spec["default"]
    exp = default_tokens(g, c.default)
    if d.name == "delta":
        # documented in the dialect: DEFAULT requires a table feature
        return
    if d.name in ("oracle", "snowflake") and got and sql.is_w(got[0], "TIMESTAMP") and exp \
            and g.truth(g.isinstance(c.data_type, SqlTimestampType)):
        got = got[1:]
    g.ensure_eq(f"{what}: default", got, exp)


def by_contract(g, cls, name, handler):
    "Calls of the method go to its contract (a method that does not exist is not called)."
    f = inspect.getattr_static(cls, name, None)
    if isinstance(f, property):
        f = f.fget
    if f is not None:
        g.override(f, handler)


def use_definition_contracts(g, d):
    "Contract of data_spec (P08, column definitions): a text that defines the column."
    if not g.symbolic:
        return
    from pyvc.values import Atom, SStr, Text

    def data_spec(e, self):
        return SStr([Atom(e.fn("data_spec", Text, Text)(e.term(self.__dict__["name"].id)), "coldef", self)])

    by_contract(g, d.column, "data_spec", data_spec)


def check_column(g, what, d, spec, c):
    "The column definition read from the text says what the column object says."
    if "def" in spec:
        g.ensure(f"{what}: definition", spec["def"] is c, spec)
        return
    g.ensure_eq(f"{what}: data type", spec["type"], type_tokens(g, c.data_type))
    identity = g.truth(c.identity)
    g.ensure_eq(f"{what}: identity", spec["identity"] is not None, identity)
    if not identity or d.name in ("mysql", "mssql"):
        g.ensure_eq(f"{what}: nullability", spec["notnull"] is None, c.nullable)
    else:
        # an identity column is never NULL
        g.ensure(f"{what}: nullability", spec["notnull"] is not False)
    check_default(g, what, d, spec, c)
    if d.name == "mssql" and spec["default"] is not None:
        name = spec["default_name"]
        g.ensure(f"{what}: the default has a name", name is not None)
        if name is not None:
            g.ensure_eq(f"{what}: the default has the name by which it is dropped", name, default_name(g, c))
    elif spec["default_name"] is not None:
        g.fail(f"{what}: unexpected constraint", spec)
    if d.name == "mysql":
        g.ensure_eq(f"{what}: comment", spec["comment"], short_comment(g, c))
        g.ensure_eq(f"{what}: enumeration columns have their character set", spec["charset"] is not None,
                    g.isinstance(c.data_type, SqlEnumType))
    elif d.name in ("delta", "snowflake"):
        g.ensure_eq(f"{what}: comment", spec["comment"], g.force(c.description))
    else:
        g.ensure(f"{what}: no comment", spec["comment"] is None)


def cat(g, a, b):
    if g.symbolic:
        from pyvc.values import rope

        return rope(a, b)
    return a + b


def default_name(g, c):
    return cat(g, "df_", c.name.id)


def private(g, n):
    return cat(g, PRIVATE, n)


def starts(g, text, prefix):
    return g.method(text, "startswith", prefix)


# ---------------------------------------------------------------------- scripts
def flatten(ops, tables=("altertable",)):
    "The actions of a script: (scope, action) for alterations, (None, op) for everything else; lists stay lists."
    def one(op):
        if op[0] in tables:
            return sql.smap(op[2], lambda a: [(op[1], a)])
        return [(None, op)]
    return sql.smap(ops, one)


def involving(g, what, items, concerns):
    """
    The items that concern the object in focus, in order. `concerns(item)` returns a formula. Items of lists of unknown
    length belong to other objects: that none of them concerns the object in focus is an obligation.
    """
    from pyvc.values import Seg

    out = []

    def seg_items(s):
        for c, xs in s.cases:
            for x in xs:
                if isinstance(x, Seg):
                    yield from ((g.And(c, c2), y, bs + [s.base]) for c2, y, bs in seg_items(x))
                else:
                    yield c, x, [s.base]

    for i in items:
        if isinstance(i, Seg):
            for c, x, bases in seg_items(i):
                f = concerns(x)
                g.ensure(what, g.Implies(g.And(c, *[b.ne for b in bases]), g.Not(f)), x)
        elif g.truth(concerns(i)):
            out.append(i)
    return out


# ---------------------------------------------------------------------- tables
CONSTRAINT_KINDS = [ot.UniqueConstraint, ot.ForeignConstraint, ot.CheckConstraint, ot.DiscriminatedConstraint]


def ids(g, p):
    "A tuple of column names of any length (at least one)."
    rest = g.seq(p, lambda q: g.new(LocalId, g.name_text(f"{q}.id")), kind="tuple")
    return g.list_of(g.new(LocalId, g.name_text(f"{p}.first")), *g.items(rest), kind="tuple")


def abstract_constraint(g, p, name=None):
    "A constraint of unknown kind (an element of a sequence of constraints)."
    if not g.symbolic:
        return unit_constraint(g, p, name if name is not None else g.name_text(p))
    import z3
    from pyvc.values import Obj, Opaque

    e = g.e
    o = Opaque(z3.Const(p, Obj), ot.Constraint)
    o.attrs["$cands"] = list(CONSTRAINT_KINDS)
    preds = [e.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e) for k in CONSTRAINT_KINDS]
    exactly_one(e, preds)
    o.attrs["name"] = g.new(LocalId, name if name is not None else g.name_text(f"{p}.name"))
    cols = (g.new(LocalId, g.name_text(f"{p}.col")),)
    o.attrs["unique_columns"] = cols
    o.attrs["foreign_columns"] = cols
    o.attrs["reference"] = references(g, f"{p}.ref")
    o.attrs["references"] = [o.attrs["reference"]]
    o.attrs["condition"] = g.expr(f"{p}.condition")
    return o


def ckey(c):
    from pyvc.values import Opaque

    return (c.attrs["name"] if isinstance(c, Opaque) else c.name).id


def columns_around(g, p, d, n, unit):
    "Columns with distinct names: the one in focus (if any) and any number of others."
    return g.around(p, lambda q: column(g, q, cls=d.column), key_of, n, unit,
                    facts=lambda c: [g.z(g.Not(starts(g, c.name.id, PRIVATE)))] if g.symbolic else [True])


def constraints_around(g, p, m, unit):
    def facts(c):
        f = g.Not(starts(g, ckey(c), "df_"))
        return [g.z(f)] if g.symbolic else [f]
    return g.around(p, lambda q: abstract_constraint(g, q), ckey, m, unit, facts=facts)


def unit_constraint(g, p, m):
    k = g.choice(f"{p}.kind", ["unique", "foreign", "check", "discriminated"])
    n = g.new(LocalId, m)
    if k == "unique":
        return g.new(ot.UniqueConstraint, n, ids(g, f"{p}.cols"))
    if k == "foreign":
        return g.new(ot.ForeignConstraint, n, ids(g, f"{p}.cols"),
                     g.new(ot.ConstraintReference, qualified(g, f"{p}.ref"), ids(g, f"{p}.refcols")))
    if k == "check":
        return g.new(ot.CheckConstraint, n, g.expr(f"{p}.condition"))
    return g.new(ot.DiscriminatedConstraint, n, ids(g, f"{p}.cols"), g.list_of(references(g, f"{p}.r")))


def table(g, d, qid, cols, cons, p, cls=None, pk=None, **kw):
    return g.new(cls or d.table, qid, cols, primary_key=pk if pk is not None else ids(g, f"{p}.pk"), constraints=cons,
                 description=g.opt(f"{p}.description", g.text(f"{p}.description")), **kw)
