"""P06: synchronizing schemas creates and drops exactly what differs, if permitted."""
import copy
import dataclasses
import importlib
import re

from pysqlsync.formation import mutation, object_types as ot
from pysqlsync.formation.mutation import MutatorOptions
from pysqlsync.model.id_types import LocalId, QualifiedId

from pyvc.contract import contract
from spec import sql

from . import ddl
from .common import column, key_of, lit_atom, sql_type, use_quoting_contracts
from .ddl import BASE, MSSQL, MYSQL, ORACLE, POSTGRESQL
from .p08 import atom, key_of2, none_of, without_backslashes

M = "pysqlsync.formation.mutation.Mutator."
ALL = [BASE, POSTGRESQL, MYSQL, MSSQL, ORACLE]

# what must have happened before what (kinds of operations)
PHASES = ["create schema", "rename enum", "create enum", "create struct", "create table", "add constraints", "populate",
          "mutate enum", "mutate struct", "mutate table", "drop table", "drop struct", "drop enum", "hard drop enum"]
BEFORE = {
    "rename enum": ["create table", "hard drop enum"],
    "create enum": ["create struct", "create table", "add constraints", "populate", "mutate enum", "mutate struct", "mutate table"],
    "create struct": ["create table", "add constraints", "populate", "mutate enum", "mutate struct", "mutate table"],
    "create table": ["add constraints", "populate", "mutate enum", "mutate struct", "mutate table"],
    "add constraints": [],
    "populate": [],
    "mutate enum": [], "mutate struct": [], "mutate table": [],
    "drop table": ["drop struct", "drop enum", "hard drop enum"],
    "drop struct": ["drop enum", "hard drop enum"],
    "drop enum": [], "hard drop enum": [],
}
DROPS = ["drop table", "drop struct", "drop enum", "hard drop enum"]
for _k in BEFORE:
    if _k not in DROPS:
        BEFORE[_k] = BEFORE[_k] + DROPS


# ---------------------------------------------------------------------- contracts of what the mutator calls
def pair_atom(kind, optional=True):
    "Contract of a method of the mutator on two objects."
    def handler(e, self, a, b):
        import z3
        from pyvc.values import Atom, SStr, Text

        if a is b and optional:
            return None
        k = [e.term(e.getattr(e.getattr(x, "name"), "quoted_id")) for x in (a, b)]
        if optional and e.choose(e.fn(f"{kind}.none", Text, Text, z3.BoolSort())(*k)):
            return None
        return SStr([Atom(e.fn(kind, Text, Text, Text)(*k), "stmt", (kind, (a, b)))])
    return handler


def pair_changes(g, kind, a, b):
    import z3
    from pyvc.values import SBool, Text

    if a is b:
        return False
    e = g.e
    k = [e.term(e.getattr(e.getattr(x, "name"), "quoted_id")) for x in (a, b)]
    return SBool(z3.Not(e.fn(f"{kind}.none", Text, Text, z3.BoolSort())(*k)))


def use_contracts(g, d):
    use_quoting_contracts(g)
    if not g.symbolic:
        return
    for cls, k in ((ot.EnumType, "enum"), (d.struct, "struct"), (d.table, "table")):
        ddl.by_contract(g, cls, "create_stmt", atom(f"create {k}"))
        ddl.by_contract(g, cls, "drop_stmt", atom(f"drop {k}"))
    ddl.by_contract(g, ot.EnumType, "soft_drop_stmt", atom("rename enum"))
    ddl.by_contract(g, ot.EnumType, "hard_drop_stmt", atom("hard drop enum"))
    ddl.by_contract(g, d.table, "add_constraints_stmt", atom("add constraints", True))
    for k in ("enum", "struct", "table"):
        ddl.by_contract(g, d.mutator, f"mutate_{k}_stmt", pair_atom(f"mutate {k}"))
    ddl.by_contract(g, d.mutator, "migrate_enum_stmt", pair_atom("populate", False))


# ---------------------------------------------------------------------- schemas
class Space:
    def __init__(self, enums, structs, tables):
        self.enums, self.structs, self.tables = enums, structs, tables


def space(g, d, ns, p):
    "The objects of a schema: names are qualified with the name of the schema."
    name = lambda q: g.new(QualifiedId, ns, g.name_text(f"{q}.id"))
    if g.symbolic:
        enums = g.seq(f"{p}.e", lambda q: g.new(ot.EnumType, name(q), g.seq(f"{q}.v", lambda r: g.text(r))), key_of2)
        structs = g.seq(f"{p}.s", lambda q: g.new(d.struct, name(q), g.list_of()), key_of2)
        tables = g.seq(f"{p}.t", lambda q: g.new(d.table, name(q), g.list_of(), primary_key=()), key_of2)
        return Space(enums, structs, tables)
    vals = lambda q: [v for v in dict.fromkeys(g.seq(q, lambda r: g.text(r)))] or ["x"]
    enums = g.seq(f"{p}.e", lambda q: g.new(ot.EnumType, name(q), vals(q)), key_of2)
    structs = g.seq(f"{p}.s", lambda q: d.struct(name(q), [ot.StructMember(LocalId("m"), sql_type(g, "mt"))]), key_of2)
    tables = g.seq(f"{p}.t", lambda q: ddl.table(
        g, d, name(q), g.seq("c", lambda p: column(g, p, None, d.column, description=False), key_of),
        g.seq("k", lambda p: ddl.abstract_constraint(g, p), ddl.ckey), "t"), key_of2)
    return Space(enums, structs, tables)


def shuffled(g, xs, ys):
    "Natively, mostly related models: part of the objects of the first, in the second."
    if g.symbolic or g.rng.random() < 0.2:
        return ys
    out = []
    for a, b in ((xs.enums, ys.enums), (xs.structs, ys.structs), (xs.tables, ys.tables)):
        names = {x.name.id for x in b}
        out.append(b + [copy.deepcopy(x) for x in a if x.name.id not in names and g.rng.random() < 0.5])
    return Space(*out)


def native_parts(d, mut, xs, ys):
    "What each object contributes to the script: (kind, objects) -> operations."
    parts = []

    def put(kind, obj, f):
        parts.append(((kind, obj), sql.script(f(), d.name)))

    for k, a, b in (("enum", xs.enums, ys.enums), ("struct", xs.structs, ys.structs), ("table", xs.tables, ys.tables)):
        olds, news = {x.name.id: x for x in a}, {x.name.id: x for x in b}
        for x in b:
            if x.name.id not in olds:
                put(f"create {k}", x, x.create_stmt)
                if k == "table":
                    put("add constraints", x, x.add_constraints_stmt)
        for x in a:
            if x.name.id in news:
                put(f"mutate {k}", (x, news[x.name.id]), lambda: getattr(mut, f"mutate_{k}_stmt")(x, news[x.name.id]))
            else:
                put(f"drop {k}", x, x.drop_stmt)
                if k == "enum":
                    put("rename enum", x, x.soft_drop_stmt)
                    put("hard drop enum", x, x.hard_drop_stmt)
                    for t in ys.tables:
                        if t.name == x.name:
                            put("populate", (x, t), lambda: mut.migrate_enum_stmt(x, t))
    return parts


def recognize(parts, ops):
    "The operations as contributions of objects."
    out, i = [], 0
    parts = sorted([p for p in parts if p[1]], key=lambda p: -len(p[1]))
    while i < len(ops):
        hit = next((p for p in parts if ops[i:i + len(p[1])] == p[1]), None)
        if hit is None:
            return out + [("unknown", ops[i])]
        out.append(("opaque", hit[0]))
        i += len(hit[1])
    return out


def kinds_of(item):
    from pyvc.values import Seg

    if isinstance(item, Seg):
        return {k for _, xs in item.cases for x in xs for k in kinds_of(x)}
    return {item[1][0]} if item[0] == "opaque" else {"unknown"}


def check_order(g, ops, before):
    from pyvc.values import Seg

    seen = set()
    bad = None
    for i in ops:
        ks = kinds_of(i)
        for k in ks:
            for later in before.get(k, ()):
                if later in seen or (isinstance(i, Seg) and later in ks):
                    bad = (k, later)
        seen |= ks
    g.ensure("objects are created, then populated or altered, and dropped last", bad is None, bad)


def check_kinds(g, ops, expected):
    "Each kind of operation happens to exactly the expected objects, once each, in order."
    unknown = [k for i in ops for k in kinds_of(i) if k not in expected]
    g.ensure("nothing else happens", not unknown, unknown)
    ops = g.list_of(*ops)
    for kind, want in expected.items():
        got = g.filter(ops, lambda x, k=kind: x[1][0] == k, lambda x: x[1][1])
        g.ensure_eq(f"{kind}: exactly what differs, once each", got, want)


def minus(g, xs, ys):
    return g.filter(xs, lambda x: g.Not(g.has_key(ys, x.name.id)))


def changed(g, kind, xs, ys, parts=None):
    if g.symbolic:
        both = g.filter(xs, lambda x: g.has_key(ys, x.name.id), lambda x: (x, g.at_key(ys, x.name.id)))
        return g.filter(both, lambda p: pair_changes(g, kind, *p))
    return [obj for (k, obj), ops in parts if k == kind and ops]


def replaced(g, enums, tables):
    "Enumerations whose name is taken over by a new table, with the table."
    if g.symbolic:
        from pyvc.values import Seg

        out = []
        for i in g.items(enums):
            cases = []
            for c, xs in i.cases:
                for e in xs:
                    inner = g.filter(tables, lambda t: g.eq(e.name, t.name), lambda t: (e, t))
                    cases.extend(g.e.flat_cases(c, g.items(inner)))
            out.append(Seg(i.base, cases))
        return g.list_of(*out)
    return [(e, t) for e in enums for t in tables if e.name == t.name]


def namespace_contract(g, d):
    use_contracts(g, d)
    ns = g.name_text("schema")
    xs = space(g, d, ns, "old")
    identical = g.flag("identical")
    if identical:
        ys = xs
    elif g.flag("other schema"):
        g.cover("other schema")
        other = g.name_text("other schema")
        g.assume(g.Not(g.eq(ns, other)))
        ys = space(g, d, other, "new")
        s = g.new(d.namespace, g.new(LocalId, ns), enums=xs.enums, structs=xs.structs, tables=xs.tables)
        t = g.new(d.namespace, g.new(LocalId, other), enums=ys.enums, structs=ys.structs, tables=ys.tables)
        r = g.outcome(g.new(d.mutator), "mutate_namespace_stmt", s, t)
        g.ensure("another schema is not morphed", r.raised and isinstance(r.value, ot.FormationError), r)
        return
    else:
        ys = shuffled(g, xs, space(g, d, ns, "new"))
    allow = {k: g.bool(f"allow_drop_{k}") for k in ("enum", "struct", "table")}
    opts = MutatorOptions(**{f"allow_drop_{k}": v for k, v in allow.items()}, allow_drop_namespace=g.bool("allow_drop_namespace"))
    mut = g.new(d.mutator, opts)
    s = g.new(d.namespace, g.new(LocalId, ns), enums=xs.enums, structs=xs.structs, tables=xs.tables)
    t = g.new(d.namespace, g.new(LocalId, ns), enums=ys.enums, structs=ys.structs, tables=ys.tables)
    parts = None
    if not g.symbolic:
        for e in list(xs.enums) + list(ys.enums):
            without_backslashes(g, d, e.values)
        try:
            parts = native_parts(d, mut, xs, ys)
        except (ot.FormationError, KeyError):
            g.assume(False)
        opsets = [str(o) for (k, _), o in parts if o]
        g.assume(len(set(opsets)) == len(opsets))
    r = g.outcome(mut, "mutate_namespace_stmt", s, t)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    text = g.force(r.value)
    if identical:
        g.cover("identical")
        g.ensure("equal definitions emit nothing", text is None, text)
        return
    g.cover("different")
    ops = sql.script(text, d.name)
    if not g.symbolic:
        ops = recognize(parts, ops)
        g.ensure("every operation is one of an object", all(o[0] == "opaque" for o in ops), ops)
    allow = {k: g.truth(v) for k, v in allow.items()}
    new_tables = minus(g, ys.tables, xs.tables)
    old_enums = minus(g, xs.enums, ys.enums)
    over = replaced(g, old_enums, new_tables)
    none = g.list_of()
    taken = g.filter(old_enums, lambda e: taken_over(g, e, new_tables))
    if g.symbolic:
        cons = g.filter(new_tables, lambda x: none_of(g, "add constraints", x))
    else:
        cons = [o for (k, o), p in parts if k == "add constraints" and p]
    expected = {
        "create enum": minus(g, ys.enums, xs.enums),
        "create struct": minus(g, ys.structs, xs.structs),
        "create table": new_tables,
        "add constraints": cons,
        "rename enum": taken,
        "populate": over,
        "mutate enum": changed(g, "mutate enum", xs.enums, ys.enums, parts),
        "mutate struct": changed(g, "mutate struct", xs.structs, ys.structs, parts),
        "mutate table": changed(g, "mutate table", xs.tables, ys.tables, parts),
        "drop table": minus(g, xs.tables, ys.tables) if allow["table"] else none,
        "drop struct": g.reversed(minus(g, xs.structs, ys.structs)) if allow["struct"] else none,
        "drop enum": g.filter(old_enums, lambda e: g.Not(taken_over(g, e, new_tables))) if allow["enum"] else none,
        "hard drop enum": taken if allow["enum"] else none,
    }
    check_kinds(g, ops, expected)
    check_order(g, ops, BEFORE)


def taken_over(g, e, tables):
    if not g.symbolic:
        return any(e.name == t.name for t in tables)
    # a new table has the name of the enumeration
    ors = []
    for i in g.items(tables):
        for c, xs in i.cases:
            for t in xs:
                ors.append(g.e.exists(i.base, g.z(g.And(c, g.eq(t.name, e.name)))))
    return g.Or(*ors)


# ---------------------------------------------------------------------- the whole database
NS = {"create_schema_stmt": "create schema", "create_objects_stmt": "create objects", "add_constraints_stmt": "add constraints",
      "drop_constraints_stmt": "drop constraints", "drop_objects_stmt": "drop objects", "drop_schema_stmt": "drop schema"}
NS_BEFORE = {
    "create schema": ["create objects", "add constraints", "mutate", "drop constraints", "drop objects", "drop schema"],
    "create objects": ["add constraints", "mutate", "drop constraints", "drop objects", "drop schema"],
    "add constraints": ["drop objects", "drop schema"],
    "mutate": ["drop objects", "drop schema"],
    "drop constraints": ["drop objects", "drop schema"],
    "drop objects": ["drop schema"],
}


def catalog_contract(g, d):
    use_contracts(g, d)
    if g.symbolic:
        for name, kind in NS.items():
            ddl.by_contract(g, d.namespace, name, atom(kind, True))
        ddl.by_contract(g, d.mutator, "mutate_namespace_stmt", pair_atom("mutate"))
        # the order of schemas: P09
        g.override(ot.Catalog.sort, lambda e, self: None)
    names = lambda p: g.seq(p, lambda q: make_namespace(g, d, q), key_of2)
    xs = names("old")
    identical = g.flag("identical")
    ys = xs if identical else names("new")
    if not g.symbolic and identical:
        ys = copy.deepcopy(xs)
    allow = g.bool("allow_drop_namespace")
    opts = MutatorOptions(allow_drop_enum=g.bool("allow_drop_enum"), allow_drop_struct=g.bool("allow_drop_struct"),
                          allow_drop_table=g.bool("allow_drop_table"), allow_drop_namespace=allow)
    mut = g.new(d.mutator, opts)
    s, t = g.new(ot.Catalog, xs), g.new(ot.Catalog, ys)
    parts = None
    if not g.symbolic:
        s.sort()
        t.sort()
        xs, ys = list(s.namespaces.values()), list(t.namespaces.values())
        olds, news = {x.name.id: x for x in xs}, {y.name.id: y for y in ys}
        parts = []
        for x in [y for y in ys if y.name.id not in olds]:
            parts += [((NS[n], x), sql.script(getattr(x, n)(), d.name)) for n in list(NS)[:3]]
        for x in xs[::-1]:
            if x.name.id not in news:
                parts += [((NS[n], x), sql.script(getattr(x, n)(), d.name)) for n in list(NS)[3:]]
        for x in xs:
            if x.name.id in news:
                try:
                    parts.append((("mutate", (x, news[x.name.id])), sql.script(mut.mutate_namespace_stmt(x, news[x.name.id]), d.name)))
                except (ot.FormationError, KeyError):
                    g.assume(False)
        opsets = [str(o) for (k, _), o in parts if o]
        g.assume(len(set(opsets)) == len(opsets))
    r = g.outcome(mut, "mutate_catalog_stmt", s, t)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    text = g.force(r.value)
    if identical:
        g.cover("identical")
        g.ensure("equal models produce no script", text is None, text)
        return
    g.cover("different")
    ops = sql.script(text, d.name)
    if not g.symbolic:
        ops = recognize(parts, ops)
        g.ensure("every operation is one of an object", all(o[0] == "opaque" for o in ops), ops)

    allow = g.truth(allow)

    def part(kind, ok=True):
        if not ok:
            return g.list_of()
        if not g.symbolic:
            return [o for (k, o), p in parts if k == kind and p]
        if kind == "mutate":
            return changed(g, kind, xs, ys)
        a, b = (xs, ys) if kind.startswith("drop") else (ys, xs)
        # schemas in order of reference, or the reverse of it
        return g.filter(g.reversed(minus(g, a, b)) if kind.startswith("drop") else minus(g, a, b), lambda n: none_of(g, kind, n))

    expected = {k: part(k, allow or not k.startswith("drop")) for k in [*NS.values(), "mutate"]}
    check_kinds(g, ops, expected)
    check_order(g, ops, NS_BEFORE)


def make_namespace(g, d, p):
    n = g.name_text(f"{p}.name")
    if g.symbolic:
        return g.new(d.namespace, g.new(LocalId, n), enums=g.list_of(), structs=g.list_of(), tables=g.list_of())
    sp = space(g, d, n, p)
    for e in sp.enums:
        without_backslashes(g, d, e.values)
    for t in sp.tables:
        # no references between schemas: the order does not matter
        for k in list(t.constraints.keys()):
            if not isinstance(t.constraints[k], (ot.UniqueConstraint, ot.CheckConstraint)):
                t.constraints.remove(k)
    return d.namespace(LocalId(n), enums=sp.enums, structs=sp.structs, tables=sp.tables)


def nm(d):
    return {"ansi": "base"}.get(d.name, d.name)


contract("P06", "namespace", [M + "mutate_namespace_stmt", M + "check_identity", M + "__init__"],
         covers=("identical", "different", "other schema"), weight=3)(lambda g: namespace_contract(g, BASE))
def catalog_order(g):
    """
    Types and tables in one schema may be used in another: what is used is created before what uses it, and dropped
    after it, whatever the order in which the schemas are listed.
    """
    from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType

    d = g.choice("dialect", [BASE, POSTGRESQL])
    names = ["a", "b", "c", "d"]
    g.rng.shuffle(names)
    count = g.choice("schemas", [2, 3, 4])
    names = names[:count]
    # a schema refers to those before it
    refs = {n: [m for m in names[:i] if g.bool("refers")] for i, n in enumerate(names)}

    def schema(n, kept):
        t = lambda m: SqlUserDefinedType(QualifiedId(m, "e"))
        columns = lambda: [d.column(LocalId("id"), SqlIntegerType(8), False), *[d.column(LocalId(f"c_{m}"), t(m), False) for m in refs[n] if m in kept]]
        structs = [d.struct(QualifiedId(n, "s"), [ot.StructMember(LocalId(f"m_{m}"), t(m)) for m in refs[n] if m in kept])] if any(m in kept for m in refs[n]) and in_struct else []
        tables = [d.table(QualifiedId(n, "t"), columns(), primary_key=(LocalId("id"),), constraints=[])] if not structs or g.bool("table") else []
        return d.namespace(LocalId(n), enums=[ot.EnumType(QualifiedId(n, "e"), ["x"])], structs=structs, tables=tables)

    in_struct = g.bool("in a structure")

    def catalog(kept):
        xs = [schema(n, kept) for n in names if n in kept]
        g.rng.shuffle(xs)
        return ot.Catalog(xs)

    def check(what, text, kept, drop):
        at = {}
        for i, line in enumerate((text or "").split("\n")):
            m = re.match(r'(?:CREATE|DROP) (?:TYPE|TABLE|DOMAIN) (?:IF EXISTS )?"([a-d])"\."([a-z])"', line)
            if m and line.startswith("DROP") == drop:
                at[m.groups()] = i
        for n in kept:
            for m in refs[n]:
                if m in kept:
                    for kind in "st":
                        if (n, kind) in at:
                            used = at.get((m, "e"))
                            g.ensure(f"{what}: what is used, and what uses it, in order", used is not None and (used > at[n, kind] if drop else used < at[n, kind]), text)
                            g.cover("created" if not drop else "dropped")

    g.note("refs", refs)
    every = set(names)
    check("created", catalog(every).create_stmt(), every, False)
    check("dropped", catalog(every).drop_stmt(), every, True)
    mut = d.mutator(MutatorOptions())
    check("created by change", mut.mutate_catalog_stmt(ot.Catalog([]), catalog(every)), every, False)
    check("dropped by change", mut.mutate_catalog_stmt(catalog(every), ot.Catalog([])), every, True)


def drop_references(g):
    """
    When tables of one schema are dropped, no foreign key of a table that still exists refers to a table at the moment
    at which it is dropped, whatever the order of the tables (databases refuse to drop a table that is referenced).
    """
    from pysqlsync.model.data_types import SqlIntegerType

    d = g.choice("dialect", ALL)
    count = g.choice("tables", [1, 2, 3, 4])
    names = ["a", "b", "c", "d"][:count]
    kept = {n for n in names if g.bool("kept")}
    refs = {n: [m for m in names if g.bool("refers")] for n in names}
    i8 = SqlIntegerType(8)

    def table(n, targets):
        columns = [d.column(LocalId(c), i8, False) for c in ["id"] + [f"r{m}" for m in names]]
        cons = [ot.ForeignConstraint(LocalId(f"fk_{n}_{m}"), (LocalId(f"r{m}"),), ot.ConstraintReference(QualifiedId("s", m), (LocalId("id"),))) for m in targets]
        if unique:
            cons.insert(0, ot.UniqueConstraint(LocalId(f"uq_{n}"), (LocalId("id"),)))
        return d.table(QualifiedId("s", n), columns, primary_key=(LocalId("id"),), constraints=cons)

    unique = g.bool("unique")
    order = list(names)
    g.rng.shuffle(order)
    old = d.namespace(LocalId("s"), enums=[], structs=[], tables=[table(n, refs[n]) for n in order])
    new = d.namespace(LocalId("s"), enums=[], structs=[], tables=[table(n, [m for m in refs[n] if m in kept]) for n in order if n in kept])
    text = d.mutator(MutatorOptions()).mutate_namespace_stmt(old, new) or ""
    live = {(n, m) for n in names for m in refs[n]}
    g.note("script", text)
    q = "[`\"\\[]?"
    name = lambda x: f"{q}{x}[`\"\\]]?"
    gone = []
    for stmt in text.split(";"):
        for m in re.finditer(f"DROP CONSTRAINT {name('fk_([a-d])_([a-d])')}", stmt):
            n, to = m.groups()
            g.ensure("a foreign key is dropped once, by its table", (n, to) in live and re.search(f"ALTER TABLE {name('s')}.{name(n)}\\s", stmt) is not None, stmt)
            g.ensure("foreign keys between tables that are kept are untouched", not (n in kept and to in kept), stmt)
            live.discard((n, to))
        m = re.search(f"DROP TABLE {name('s')}.{name('([a-d])')}", stmt)
        if m:
            n = m.group(1)
            users = [u for u, to in live if to == n and u != n and u not in gone]
            g.ensure("no table refers to a table that is dropped", not users, users)
            gone.append(n)
            if any(to == n for u in gone for to in refs[u]):
                g.cover("referenced")
            live = {(u, to) for u, to in live if u != n}
    g.ensure_eq("exactly the missing tables are dropped", sorted(gone), [n for n in names if n not in kept])


contract("P06", "drop_references", [M + "mutate_namespace_stmt"], covers=("referenced",), bounded="up to four tables with any references", samples=150)(drop_references)
contract("P06", "catalog_order", [M + "mutate_catalog_stmt", "pysqlsync/formation/object_types.py::Catalog.create_stmt", "pysqlsync/formation/object_types.py::Catalog.drop_stmt"],
         covers=("created", "dropped"), bounded="two to four schemas with references in one direction", samples=150)(catalog_order)
contract("P06", "catalog", [M + "mutate_catalog_stmt", M + "__init__"], covers=("identical", "different"))(
    lambda g: catalog_contract(g, BASE))


# ---------------------------------------------------------------------- permissions reach the mutator; the synchronizer
GENERATORS = {
    "postgresql": "PostgreSQLGenerator", "redshift": "RedshiftGenerator", "mysql": "MySQLGenerator", "mssql": "MSSQLGenerator",
    "oracle": "OracleGenerator", "delta": "DeltaGenerator", "snowflake": "SnowflakeGenerator", "trino": "TrinoGenerator",
}


def generator_contract(g, name, cls):
    "The mutator of every dialect gets the permissions asked for; the statement is the one from the state to the target."
    from pysqlsync.base import BaseGenerator, GeneratorOptions
    from pysqlsync.formation.py_to_sql import DataclassConverter

    opts = MutatorOptions(*[g.bool(f"allow.{i}") for i in range(4)])
    gen = g.new(cls, g.new(GeneratorOptions, synchronization=opts))
    g.ensure_eq("the permissions reach the mutator", gen.mutator.options, opts)
    g.ensure("the initial state is empty", not g.items(g.to_list(g.method(gen.state.namespaces, "values"))))
    a, b = ot.Catalog([]), ot.Catalog([])
    calls = []

    def mutate(*args):
        calls.append(args[-2:])
        return "SCRIPT;"

    def convert(*args):
        return b

    if g.symbolic:
        import inspect

        g.override(inspect.getattr_static(type(gen.mutator), "mutate_catalog_stmt"), lambda e, *x: mutate(*x))
        g.override(DataclassConverter.dataclasses_to_catalog, lambda e, *x: b)
        g.override(DataclassConverter.modules_to_catalog, lambda e, *x: b)
        g.e.setattr(gen, "state", a)
    else:
        gen.mutator.mutate_catalog_stmt = mutate
        gen.converter.dataclasses_to_catalog = convert
        gen.converter.modules_to_catalog = convert
        gen.state = a
    kind = g.choice("kind", ["tables", "modules", "drop", "mutate"])
    if kind == "drop":
        r = g.method(gen, "drop")
        b = calls[0][1] if calls else None
        g.ensure("everything is dropped", b is not None and not g.items(g.to_list(g.method(b.namespaces, "values"))), calls)
    elif kind == "mutate":
        r = g.method(gen, "get_mutate_stmt", b)
    else:
        r = g.method(gen, "create", **{kind: g.list_of(Entity if kind == "tables" else importlib)})
    g.cover(kind)
    g.ensure_eq("the script of the mutator is returned", r, "SCRIPT;")
    g.ensure("from the state to the target", len(calls) == 1 and calls[0][0] is a and calls[0][1] is b, calls)
    g.ensure("the state becomes the target", gen.state is (a if kind == "mutate" else b))


class Entity:
    pass


def declare_generators():
    for n, c in GENERATORS.items():
        try:
            cls = getattr(importlib.import_module(f"pysqlsync.dialect.{n}.generator"), c)
        except ImportError:
            continue
        contract("P06", f"{n}_generator", [f"pysqlsync.dialect.{n}.generator.{c}.__init__", "pysqlsync.base.BaseGenerator.__init__",
                                           "pysqlsync.base.BaseGenerator.get_mutate_stmt", "pysqlsync.base.BaseGenerator.create",
                                           "pysqlsync.base.BaseGenerator.drop"],
                 covers=("tables", "modules", "drop", "mutate"), samples=40)(lambda g, n=n, cls=cls: generator_contract(g, n, cls))


declare_generators()


class FakeConnection:
    generator = None


class FakeContext:
    "Records what is executed."

    def __init__(self, generator, log):
        self.connection = FakeConnection()
        self.connection.generator = generator
        self.log = log

    async def execute(self, stmt):
        self.log.append(stmt)


class FakeGenerator:
    def __init__(self, states, result, log):
        self.state = None
        self.states = states
        self.result = result
        self.log = log

    def reset(self):
        self.state = None

    def create(self, *, tables):
        self.state = self.states[1]

    def get_mutate_stmt(self, target):
        self.log.append((self.state, target))
        return self.result


def synchronize_contract(g):
    "What is executed is the script from the discovered state to the desired state, once; nothing if there is none."
    from pysqlsync.base import Explorer

    found, wanted = ot.Catalog([]), ot.Catalog([])
    log, asked = g.list_of(), g.list_of()
    script = "SCRIPT;" if g.flag("script") else None
    gen = g.new(FakeGenerator, (found, wanted), script, asked)

    class Ex(Explorer):
        pass

    Ex.__abstractmethods__ = frozenset()
    x = g.obj(Ex, conn=g.new(FakeContext, gen, log))

    def discover(self):
        self.conn.connection.generator.state = found

    if g.symbolic:
        g.override(Explorer.discover, lambda e, self, **k: e.setattr(gen, "state", found))
        import pysqlsync.base as base

        g.override(base.get_entity_types, lambda e, m: [])
    else:
        async def discovered(*a, **k):
            gen.state = found
        x.discover = discovered
    g.method(x, "synchronize", modules=g.list_of(importlib))
    log, asked = g.items(g.to_list(log)), g.items(g.to_list(asked))
    g.ensure("one script is asked for", len(asked) == 1, asked)
    g.ensure("from the discovered state to the desired state", asked[0][0] is found and asked[0][1] is wanted, asked)
    if script is None:
        g.cover("nothing")
        g.ensure("nothing is executed", not log, log)
    else:
        g.cover("executed")
        g.ensure_eq("the script is executed once", g.list_of(*log), g.list_of("SCRIPT;"))
        g.ensure("the state becomes the desired state", gen.state is wanted)


contract("P06", "synchronize", ["pysqlsync.base.Explorer.synchronize"], covers=("nothing", "executed"), samples=20)(synchronize_contract)


# ---------------------------------------------------------------------- discovery of the state; life-cycle of objects
class Mapping:
    def __init__(self, names):
        self.names = names

    def get(self, module):
        return self.names[module]


class Options:
    def __init__(self, namespaces):
        self.namespaces = namespaces


class Converter:
    def __init__(self, options):
        self.options = options


class State:
    "A model of a database that records what is merged into it."

    def __init__(self):
        self.merged = []
        self.namespaces = {}

    def merge(self, other):
        self.merged.append(other)


class Model:
    "A generator."

    def __init__(self, converter):
        self.converter = converter
        self.state = None

    def reset(self):
        self.state = State()


class Module:
    def __init__(self, name):
        self.__name__ = name


@dataclasses.dataclass
class Found:
    "The objects found in a schema. None: the default schema."

    schema: object
    name: object = None


@dataclasses.dataclass
class Whole:
    namespaces: list


def explorer(g, conn):
    from pysqlsync.base import Explorer

    class Ex(Explorer):
        async def get_namespace(self, namespace_id):
            return Found(namespace_id)

        async def get_namespace_current(self):
            return Found(None)

    Ex.__abstractmethods__ = frozenset()
    return g.obj(Ex, conn=conn)


@contract("P06", "discover", ["pysqlsync.base.Explorer.discover", "pysqlsync.base._module_or_list"], covers=("one", "several", "refused"), samples=60)
def discover(g):
    "The state becomes what is found: the schema each module maps to, the default schema for a module without, nothing of before."
    import pysqlsync.base as base

    g.stub(base, "Catalog", Whole)
    given = g.seq("m", lambda p: (g.name_text(f"{p}.module"), g.opt(f"{p}.schema", g.text(f"{p}.schema"))), lambda x: x[0])
    modules = g.map(given, lambda x: g.new(Module, x[0]))
    kind = g.choice("kind", ["one", "several", "both", "neither"])
    one = g.name_text("one")
    schema = g.opt("schema", g.text("schema"))
    names = g.as_dict(given) if kind != "one" else g.as_dict(g.list_of((one, schema)))
    gen = g.new(Model, g.new(Converter, g.new(Options, g.new(Mapping, names))))
    conn = FakeContext(gen, [])
    x = explorer(g, conn)
    first = g.new(Module, one)
    args = {"one": dict(module=first), "several": dict(modules=modules), "both": dict(module=first, modules=modules), "neither": {}}[kind]
    r = g.outcome(x, "discover", **args)
    if kind in ("both", "neither"):
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
        return
    g.ensure("done", not r.raised, r)
    if r.raised:
        return
    want = g.list_of(schema) if kind == "one" else g.map(given, lambda x: x[1])
    g.ensure_eq("what is found in the schema of each module", g.map(g.attr(g.attr(gen, "state"), "merged"), lambda c: g.to_list(c.namespaces)),
                g.map(want, lambda s: g.list_of(g.new(Found, g.call(schema_of, s)))))
    g.cover(kind)


def schema_of(s):
    return LocalId(s) if s is not None else None


class Objects:
    "A generator whose scripts are given."

    def __init__(self, script, log, factory):
        self.script = script
        self.log = log
        self.factory = factory

    def create(self, *, tables):
        self.log.append(("create", tables))
        return self.script

    def drop(self):
        self.log.append(("drop",))
        return self.script


class Thing_:
    def __init__(self, script):
        self.script = script

    def create_schema_stmt(self):
        return self.script

    def drop_schema_stmt(self):
        return self.script

    def drop_if_exists_stmt(self):
        return self.script


class Things:
    def __init__(self, log, script):
        self.log = log
        self.script = script

    def namespace_class(self, name):
        self.log.append(("schema", name))
        return Thing_(self.script)

    def table_class(self, name, columns, *, primary_key):
        self.log.append(("table", name, len(columns)))
        return Thing_(self.script)


X = "pysqlsync.base.BaseContext."


@contract("P06", "objects", [X + "create_objects", X + "drop_objects", X + "create_schema", X + "drop_schema", X + "drop_table_if_exists"],
          covers=("script", "nothing"), samples=60)
def objects(g):
    "The script for what is asked is executed, once; nothing is executed if there is none."
    from pysqlsync.base import BaseContext

    script = g.choice("script", ["SCRIPT;", "", None])
    asked, log, done = g.list_of(), g.list_of(), []
    gen = g.new(Objects, script, asked, g.new(Things, asked, script))
    conn = FakeConnection()
    conn.generator = gen

    class Ctx(BaseContext):
        async def execute(self, stmt):
            self.log.append(stmt)

    Ctx.__abstractmethods__ = frozenset()
    ctx = g.obj(Ctx, connection=conn, log=log)
    name, tables = g.new(LocalId, g.text("name")), g.list_of(Entity)
    kind = g.choice("kind", ["create_objects", "drop_objects", "create_schema", "drop_schema", "drop_table_if_exists"])
    what = {"create_objects": (tables,), "drop_objects": ()}.get(kind, (name,))
    r = g.outcome(ctx, kind, *what)
    g.ensure("done", not r.raised, r)
    want = {"create_objects": ("create", tables), "drop_objects": ("drop",), "drop_table_if_exists": ("table", name, 0)}.get(kind, ("schema", name))
    g.ensure_eq("what is asked for", asked, g.list_of(want))
    g.ensure_eq("what is executed", log, g.list_of(script) if script else g.list_of())
    g.cover("script" if script else "nothing")


class Conversion:
    "A converter: the model is named by what it is made of."

    def __init__(self):
        self.made = []

    def dataclasses_to_catalog(self, tables):
        return ("model of tables", tables)

    def modules_to_catalog(self, modules):
        return ("model of modules", modules)


class Scripts:
    "A mutator: the script is named by the models it leads from and to."

    def __init__(self):
        self.log = []

    def mutate_catalog_stmt(self, source, target):
        self.log.append((source, target))
        return ("script", source, target)


class Untouched:
    "The state of the database so far."


Y = "pysqlsync.base.BaseGenerator."


@contract("P06", "create", [Y + "create", Y + "drop", Y + "get_mutate_stmt"], covers=("tables", "modules", "drop", "refused"), samples=60)
def create(g):
    "The script leads from the state so far to the model of exactly the given classes or modules, which is the state from then on."
    from pysqlsync.base import BaseGenerator

    class Gen(BaseGenerator):
        pass

    Gen.__abstractmethods__ = frozenset()
    state, scripts = g.new(Untouched), g.new(Scripts)
    gen = g.obj(Gen, state=state, mutator=scripts, converter=g.new(Conversion))
    given = g.choice("given", ["tables", "modules", "both", "none", "drop"])
    if given == "drop":
        r = g.outcome(gen, "drop")
        g.ensure("done", not r.raised, r)
        if r.raised:
            return
        target = g.attr(gen, "state")
        g.ensure_eq("nothing is left", g.length(g.to_list(g.method(g.attr(target, "namespaces"), "values"))), 0)
        g.ensure_eq("from the state so far to nothing", r.value, ("script", state, target))
        g.cover("drop")
        return
    some = g.flag("some")
    tables, modules = g.list_of(*([Entity] if some else [])), g.list_of(*([datetime_module()] if some else []))
    kwargs = {"tables": dict(tables=tables), "modules": dict(modules=modules), "both": dict(tables=tables, modules=modules), "none": {}}[given]
    r = g.outcome(gen, "create", **kwargs)
    if given in ("both", "none"):
        g.ensure("either the one or the other", r.raised and isinstance(r.value, TypeError), r)
        g.ensure("nothing changes", g.attr(gen, "state") is state)
        g.cover("refused")
        return
    g.ensure("done", not r.raised, r)
    if r.raised:
        return
    target = ("model of " + given, tables if given == "tables" else modules)
    g.ensure_eq("the state is the model of what is given", g.attr(gen, "state"), target)
    g.ensure_eq("the script leads there from the state so far", r.value, ("script", state, target))
    g.cover(given)


def datetime_module():
    import datetime

    return datetime


class DefaultSchema:
    "A PostgreSQL database whose default schema has one table, as the entity class declares it."

    def __init__(self, generator, M):
        self.connection = self
        self.generator = generator
        col = dict(type_schema="pg_catalog", is_nullable=False, is_array=False, is_identity=False, default_value=None, description=None)
        self.answers = {
            M.PostgreSQLTableMeta: M.PostgreSQLTableMeta(description=None),
            M.PostgreSQLColumnMeta: [M.PostgreSQLColumnMeta(column_name="id", type_name="int8", type_def="bigint", **col)],
            M.PostgreSQLConstraintMeta: [M.PostgreSQLConstraintMeta(constraint_type=b"p", constraint_name="pk", source_column="id", target_namespace=None,
                                                                    target_table=None, target_column=None)],
        }

    async def current_schema(self):
        return "public"

    async def query_all(self, signature, statement):
        if signature is str:
            return ["Thing_of_default"] if "relkind = 'r'" in statement else []
        return self.answers.get(signature, [])

    async def query_one(self, signature, statement):
        return self.answers[signature]


@contract("P06", "postgresql_default_schema", [X + "discover"], samples=1, covers=("unchanged",), bounded="one class")
def postgresql_default_schema(g):
    "A class in the default schema of PostgreSQL that has not changed is left alone."
    if g.symbolic:
        g.unsupported("modules are loaded")
    import asyncio
    import sys
    import types

    from pysqlsync.base import GeneratorOptions
    from pysqlsync.model.key_types import PrimaryKey
    import pysqlsync.dialect.postgresql.discovery as M
    from pysqlsync.dialect.postgresql.generator import PostgreSQLGenerator

    module = types.ModuleType("pyvc_default_schema")
    sys.modules[module.__name__] = module
    try:
        cls = dataclasses.make_dataclass("Thing_of_default", [("id", PrimaryKey[int])])
        cls.__module__ = module.__name__
        gen = PostgreSQLGenerator(GeneratorOptions(namespaces={module: None}))
        gen.create(tables=[cls])
        wanted = gen.state
        asyncio.run(M.PostgreSQLExplorer(DefaultSchema(gen, M)).discover(module=module))
        script = gen.get_mutate_stmt(wanted)
    finally:
        del sys.modules[module.__name__]
    g.ensure("nothing is executed", not script, script)
    g.cover("unchanged")


class Schemas:
    "A connection to a SQL Server that has what is asked for."

    def __init__(self, keys, tables):
        self.keys = keys
        self.tables = tables
        self.asked = []
        self.log = []


def strings(query):
    "The texts in a query, except for the kind of constraints."
    return [t[1] for t in sql.lex(query) if isinstance(t, tuple) and t[0] == "str" and not (type(t[1]) is str and t[1] == "FOREIGN KEY")]


SERVER = "pysqlsync/dialect/mssql/connection.py::MSSQLContext."


@contract("P06", "drop_schema_mssql", [SERVER + "drop_schema"], covers=("keys and tables", "neither"), samples=200)
def drop_schema_mssql(g):
    "Dropping a schema of SQL Server drops the foreign keys in it, then the tables, then the schema; each once, nothing else."
    import pysqlsync.dialect.mssql.connection as M
    from pysqlsync.formation import object_types as ot

    use_quoting_contracts(g)
    if g.symbolic:
        g.override(M.quote, lit_atom)
    ns = g.name_text("schema")
    keys = g.seq("k", lambda p: (g.name_text(f"{p}.table"), g.name_text(f"{p}.name")), lambda x: x[1])
    tables = g.seq("t", lambda p: g.name_text(p), lambda x: x)
    there = g.new(Schemas, keys, tables)

    class Ctx(M.MSSQLContext):
        async def query_all(self, signature, statement):
            self.there.asked.append(statement)
            return self.there.tables if signature is str else self.there.keys

        async def execute(self, statement):
            self.there.log.append(statement)

    Ctx.__abstractmethods__ = frozenset()
    r = g.outcome(g.obj(Ctx, there=there), "drop_schema", g.new(LocalId, ns))
    g.ensure("done", not r.raised, r)
    if r.raised:
        return
    for q in g.items(g.attr(there, "asked")):
        g.ensure_eq("what is asked for is in the schema", strings(q), [ns])
    stmts = list(g.items(g.attr(there, "log")))
    ops = sql.script(g.force(stmts.pop()), "mssql")
    g.ensure_eq("the schema is dropped last", ops, [("dropschema", ns)])
    if g.truth(g.Not(g.eq(g.length(tables), 0))):
        t = sql.Cursor(sql.lex(g.force(stmts.pop())))
        t.word("DROP", "TABLE")
        t.accept("IF", "EXISTS")
        rest = t.t[t.i:]
        g.ensure("one statement", sql.is_p(rest[-1], ";"), rest)
        names = sql.smap(sql.commas(rest[:-1]), lambda x: [sql.Cursor(x).qname()])
        g.ensure_eq("every table is dropped, once", g.list_of(*names), g.map(tables, lambda n: (ns, n)))
        some = True
    else:
        some = False
    if g.truth(g.Not(g.eq(g.length(keys), 0))):
        ops = sql.script(g.force(stmts.pop()), "mssql")
        ops = sql.smap(ops, lambda o: [(o[0], o[1], tuple(o[2]))])
        g.ensure_eq("every foreign key is dropped, once", g.list_of(*ops), g.map(keys, lambda k: ("altertable", (ns, k[0]), (("dropc", k[1]),))))
        if some:
            g.cover("keys and tables")
    elif not some:
        g.cover("neither")
    g.ensure_eq("nothing else", len(stmts), 0)
