"""P08: creation and removal scripts cover every declared object, in order."""
import dataclasses

from pysqlsync.formation import object_types as ot
from pysqlsync.model.id_types import LocalId

from pyvc.contract import contract
from spec import sql

from .common import column, key_of, qualified, qname_of, sql_type, type_tokens, use_quoting_contracts
from . import ddl
from .ddl import BASE, DELTA, MSSQL, MYSQL, ORACLE, POSTGRESQL, SNOWFLAKE

ALL = [BASE, POSTGRESQL, MYSQL, MSSQL, ORACLE, DELTA, SNOWFLAKE]
B = "pysqlsync.formation.object_types."


def own(d, what):
    return [f"pysqlsync.dialect.{d.name}.object_types.{what}"] if d is not BASE else []


def nm(d):
    return "base" if d is BASE else d.name


# ---------------------------------------------------------------------- columns
def definition_contract(g, d):
    "The definition of any column says what the column object says (this is the contract the tables rely on)."
    use_quoting_contracts(g)
    c = column(g, "c", None, d.column)
    if d is MYSQL and not g.symbolic and g.choice("long comment", [False, False, True]):
        c.description = "x" * g.choice("long", [1023, 1024, 1025, 1026]) + g.choice("more", ["", "\n", "\nmore"])
    short = ddl.short_comment(g, c)
    r = attr_outcome(g, c, "column_spec")
    if r.raised:
        g.cover("refused")
        toolong = g.gt(length(g, short), 1024) if d is MYSQL and short is not None else False
        g.ensure("only a comment that cannot be stored is refused", toolong, r)
        g.ensure("refused with the documented error", g.isinstance(r.value, ot.FormationError), r)
        return
    if d is MYSQL and short is not None:
        g.ensure("a comment that cannot be stored is refused", g.Not(g.gt(length(g, short), 1024)), short)
    g.cover("defined")
    k = sql.Cursor(sql.lex(g.force(r.value), backslash=d.name in sql.BACKSLASH))
    g.ensure_eq("the definition starts with the name", k.ident(), c.name.id)
    spec = sql.column_spec(k)
    ddl.check_column(g, "definition", d, spec, c)


def timestamp_default(g, module, name, types):
    "The default of a timestamp is a timestamp, not a text; any other default is as it is."
    import importlib

    cls = getattr(importlib.import_module(f"pysqlsync.dialect.{module}.object_types"), name)
    t, stamp = g.choice("type", types)
    default, literal = g.choice("default", [("'2024-01-02 03:04:05'", True), ("'0001-01-01 00:00:00'", True), ("'9999-12-31 23:59:59'", True), ("CURRENT_TIMESTAMP", False),
                                            ("'text'", False), ("'2024-01-02'", False), ("5", False), ("'2024-01-02 03:04:05' || 'x'", False)])
    c = g.new(cls, g.new(LocalId, "c"), g.new(t), g.bool("nullable"), default=default)
    want = f"TIMESTAMP {default}" if stamp and literal else default
    g.ensure_eq("the default", g.attr(c, "default_expr"), want)
    spec = g.force(g.attr(c, "data_spec"))
    g.ensure("is in the definition", g.contains(spec, f" DEFAULT {want}"), spec)
    g.cover("timestamp" if stamp and literal else "other")


def attr_outcome(g, o, name):
    return g.outcome(getattr, None, o, name)


def length(g, t):
    return g.e.call(len, [t], {}) if g.symbolic else len(t)


def action_contract(g, d):
    "Adding, dropping and renaming a column, and its private name."
    use_quoting_contracts(g)
    ddl.use_definition_contracts(g, d)
    n = g.name_text("n")
    c = column(g, "c", n, d.column)
    if d is MYSQL and not g.symbolic and c.description is not None:
        g.assume(len(c.description) < 1024)
    priv = ddl.private(g, n)

    def acts(name, *a):
        return sql.actions(sql.lex(g.force(g.method(c, name, *a)), backslash=d.name in sql.BACKSLASH), d.name)

    a = acts("create_stmt")
    if len(a) != 1 or a[0][0] != "add":
        g.fail("one column is added", a)
        return
    g.ensure_eq("the added column", a[0][1], n)
    ddl.check_column(g, "the added column", d, a[0][2], c)
    a = acts("drop_stmt")
    if d is MSSQL and g.force(c.default) is not None:
        g.ensure("the default is dropped first", len(a) == 2 and a[0][0] == "dropc", a)
        g.ensure_eq("the default is the one the column was created with", a[0][1], ddl.default_name(g, c))
        a = a[1:]
    g.ensure("one column is dropped", len(a) == 1 and a[0][0] == "drop", a)
    g.ensure_eq("the dropped column", a[0][1], n)
    a = acts("soft_drop_stmt")
    g.ensure("one column is renamed", len(a) == 1 and a[0][0] == "rename", a)
    g.ensure_eq("the renamed column", a[0][1], n)
    g.ensure_eq("its private name", a[0][2], priv)
    a = acts("hard_drop_stmt")
    g.ensure("one column is dropped", len(a) == 1 and a[0][0] == "drop", a)
    g.ensure_eq("the private column", a[0][1], priv)
    new = g.name_text("new")
    a = acts("rename_stmt", new)
    g.ensure("one column is renamed", len(a) == 1 and a[0][0] == "rename", a)
    g.ensure_eq("the renamed column", a[0][1], n)
    g.ensure_eq("its new name", a[0][2], new)
    g.cover("actions")


# ---------------------------------------------------------------------- tables
def short(g, t, d):
    "The comment of a table in its CREATE TABLE statement (None: no comment)."
    x = g.force(t.description)
    if not isinstance(t, d.table) or d not in (MYSQL, DELTA, SNOWFLAKE) or x is None:
        return None
    if d is MYSQL:
        x = ddl.first_line(g, x)
    return None if g.truth(g.eq(x, "")) else x


def check_created_table(g, d, op, t, cols, q):
    if op[0] != "createtable":
        g.fail("a table is created", op)
        return
    g.ensure_eq("the table created", op[1], q)
    ms = op[2]
    last = ms[-1]
    from pyvc.values import Seg

    if isinstance(last, Seg) or last[0] != "constraint" or last[1][0] != "primary":
        g.fail("the primary key ends the definition", last)
        return
    g.ensure_eq("the primary key is over exactly the declared columns", last[1][2], g.map(t.primary_key, lambda x: x.id))
    if g.symbolic:
        g.ensure_eq("every column once, in order", g.list_of(*ms[:-1]),
                    g.map(cols, lambda c: ("column", c.name.id, {"def": c})))
    else:
        g.ensure_eq("every column once, in order", [m[:2] for m in ms[:-1]], [("column", c.name.id) for c in cols])
        for m, c in zip(ms, cols):
            ddl.check_column(g, "column", d, m[2], c)
    g.ensure_eq("table comment", op[3], short(g, t, d))


def create_contract(g, d, enum=False):
    use_quoting_contracts(g)
    ddl.use_definition_contracts(g, d)
    qid = qualified(g, "table")
    q = qname_of(g, qid)
    cols = g.seq("c", lambda p: column(g, p, None, d.column), key_of)
    if not g.symbolic:
        g.assume(all(len(c.description or "") <= 1024 for c in cols))
    cons = g.seq("k", lambda p: ddl.abstract_constraint(g, p), ddl.ckey)
    kw = {}
    if enum:
        texts = [g.seq("values", lambda p: g.text(p))]
        shape = g.choice("rows", ["text", "pair", "object"])
        if shape == "text":
            kw["values"] = texts[0]
        else:
            make = (lambda p: (g.text(f"{p}.0"), g.text(f"{p}.1"))) if shape == "pair" else (lambda p: g.new(Row, g.text(f"{p}.0"), g.text(f"{p}.1")))
            kw["values"] = g.seq("rows", make)
            texts = [g.map(kw["values"], lambda v, i=i: v[i] if shape == "pair" else (v.first, v.second)[i]) for i in range(2)]
        for x in texts:
            without_backslashes(g, d, x)
    t = ddl.table(g, d, qid, cols, cons, "table", cls=d.enum_table if enum else None, **kw)
    r = g.outcome(t, "create_stmt")
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    ops = list(sql.script(g.force(r.value), d.name))
    g.cover("created")
    check_created_table(g, d, ops[0], t, cols, q)
    rest = ops[1:]
    if enum:
        ins = [x for x in rest if not hasattr(x, "cases") and x[0] == "insert"]
        rest = [x for x in rest if hasattr(x, "cases") or x[0] != "insert"]
        if len(ins) != 1:
            g.fail("the values are inserted once", ops)
            return
        _, iq, icols, rows, tail = ins[0]
        g.ensure_eq("values go to the table", iq, q)
        pk = t.primary_key
        inpk = lambda c: g.contains(pk, c.name)
        if g.symbolic:
            want = g.method(t, "get_value_columns")  # contract: P10
            g.ensure_eq("values go to the value columns", g.list_of(*icols), g.map(want, lambda c: c.name.id))
        else:
            g.ensure_eq("values go to the value columns", list(icols),
                        [c.name.id for c in cols if c.name not in pk and not c.identity])
        g.ensure_eq("every value once, in order", g.list_of(*rows), g.map(kw["values"], lambda v: tuple((("str", x),) for x in cells(shape, v))))
        g.ensure("nothing else", not tail, tail)
    if d is POSTGRESQL:
        x = g.force(t.description)
        path = [n for n in q if n is not None]
        want = [] if x is None else [("commenton", "TABLE", tuple(path), x)]
        comments = g.filter(cols, lambda c: g.Not(g.is_none(c.description)), lambda c: (
            "commenton", "COLUMN", tuple(path) + (c.name.id,), present(g, c.description)))
        g.ensure_eq("comments of the table and its columns, once each", g.list_of(*rest),
                    g.list_of(*want, *g.items(comments)))
    else:
        g.ensure("nothing else", not rest, rest)


@dataclasses.dataclass
class Row:
    "A value of an enumeration with several columns."
    first: str
    second: str


def cells(shape, v):
    return (v,) if shape == "text" else (v[0], v[1]) if shape == "pair" else (v.first, v.second)


def without_backslashes(g, d, texts):
    "How constants are written for these dialects is subject to P02 (recorded there)."
    if not g.symbolic and d.name in sql.BACKSLASH:
        g.assume(not any("\\" in x for x in texts))


def present(g, v):
    "The value of an optional value that is there."
    from pyvc.values import SOpt

    return v.val if isinstance(v, SOpt) else v


def drop_contract(g, d):
    use_quoting_contracts(g)
    qid = qualified(g, "table")
    q = qname_of(g, qid)
    t = ddl.table(g, d, qid, g.seq("c", lambda p: column(g, p, None, d.column), key_of), g.list_of(), "table")
    for name in ("drop_stmt", "drop_if_exists_stmt"):
        ops = sql.script(g.force(g.method(t, name)), d.name)
        g.ensure("one table is dropped", len(ops) == 1 and ops[0][0] == "droptable", ops)
        g.ensure_eq("the table dropped", ops[0][1], q)
        g.ensure("a missing table is an error unless asked otherwise",
                 ("if exists" in ops[0][2:]) == (name == "drop_if_exists_stmt"), ops)
    g.cover("dropped")


def constraints_contract(g, d):
    "Every constraint that exists in the database is added once and dropped once, separately."
    use_quoting_contracts(g)
    qid = qualified(g, "table")
    q = qname_of(g, qid)
    m = g.name_text("m")
    old = ddl.unit_constraint(g, "focus", m) if g.flag("present") else None
    cons = ddl.constraints_around(g, "k", m, old)
    t = ddl.table(g, d, qid, g.seq("c", lambda p: column(g, p, None, d.column), key_of), cons, "table")
    for name, verb in (("add_constraints_stmt", "addc"), ("drop_constraints_stmt", "dropc")):
        r = g.outcome(t, name)
        g.ensure("not refused", not r.raised, r)
        if r.raised:
            return
        ops = sql.script(g.force(r.value), d.name)
        items = ddl.flatten(ops)
        for x in ops:
            if hasattr(x, "cases"):
                continue
            if x[0] != "altertable":
                g.fail("only the table is altered", x)
                return
            g.ensure_eq("only the table is altered", x[1], q)
        want = g.filter(cons, lambda c: is_ddl(g, c), lambda c: name_of(g, c))
        got = sql.smap(items, lambda x: [x[1][1]] if x[1][0] == verb else [x])
        g.ensure_eq(f"{name}: every constraint once, in order", g.list_of(*got), want)
        if old is not None and ddl.is_ddl(old):
            g.cover("constraint")
            acts = [x[1] for x in ddl.involving(g, "no other constraint is called the same", items,
                                                lambda x: g.eq(x[1][1], m))]
            if len(acts) != 1:
                g.fail("once", acts)
                return
            if verb == "addc":
                ddl.check_constraint(g, "the added constraint", acts[0][2], old)


def is_ddl(g, c):
    return g.Not(g.isinstance(c, ot.DiscriminatedConstraint))


def name_of(g, c):
    return ddl.ckey(c)


# ---------------------------------------------------------------------- types
def enum_contract(g, cls=ot.EnumType):
    use_quoting_contracts(g)
    qid = qualified(g, "enum", ("qualified",))
    values = g.seq("values", lambda p: g.text(p))
    if not g.symbolic:
        g.assume(len(values) > 0)
    t = g.new(cls, qid, values)
    q = qname_of(g, qid)
    for name in ("create_stmt", "__str__"):
        ops = sql.script(g.force(g.method(t, name)))
        if len(ops) != 1 or ops[0][0] != "createenum":
            g.fail("one enumeration is created", ops)
            return
        g.ensure_eq("the enumeration created", ops[0][1], q)
        g.ensure_eq("every value once, in order", g.list_of(*ops[0][2]), values)
    ops = sql.script(g.force(g.method(t, "drop_stmt")))
    g.ensure("one type is dropped", len(ops) == 1 and ops[0][0] == "droptype", ops)
    g.ensure_eq("the type dropped", ops[0][1], q)
    priv = ddl.private(g, qid.id)
    ops = sql.script(g.force(g.method(t, "soft_drop_stmt")))
    g.ensure("one type is renamed", len(ops) == 1 and ops[0][0] == "altertype" and len(ops[0][2]) == 1, ops)
    g.ensure_eq("the type renamed", ops[0][1], q)
    g.ensure_eq("its private name", ops[0][2][0], ("renameto", priv))
    ops = sql.script(g.force(g.method(t, "hard_drop_stmt")))
    g.ensure("one type is dropped", len(ops) == 1 and ops[0][0] == "droptype", ops)
    g.ensure_eq("the private type", ops[0][1], (q[0], priv))
    g.cover("enum")


def struct_contract(g, d):
    use_quoting_contracts(g)
    qid = qualified(g, "struct")
    q = qname_of(g, qid)
    members = g.seq("m", lambda p: g.new(ot.StructMember, g.new(LocalId, g.name_text(f"{p}.name")), sql_type(g, f"{p}.type"),
                                         g.opt(f"{p}.description", g.text(f"{p}.description"))), key_of)
    if not g.symbolic:
        g.assume(len(members) > 0)
    t = g.new(d.struct, qid, members, g.opt("description", g.text("description")))
    for name in ("create_stmt", "__str__"):
        ops = list(sql.script(g.force(g.method(t, name))))
        if ops[0][0] != "createstruct":
            g.fail("a composite type is created", ops)
            return
        g.ensure_eq("the type created", ops[0][1], q)
        g.ensure_eq("every member once, in order", g.list_of(*ops[0][2]),
                    g.map(members, lambda m: ("column", m.name.id, {"type": type_tokens(g, m.data_type)})))
        rest = ops[1:]
        if d is POSTGRESQL:
            x = g.force(t.description)
            path = [n for n in q if n is not None]
            want = [] if x is None else [("commenton", "TYPE", tuple(path), x)]
            comments = g.filter(members, lambda c: g.Not(g.is_none(c.description)), lambda c: (
                "commenton", "COLUMN", tuple(path) + (c.name.id,), present(g, c.description)))
            g.ensure_eq("comments of the type and its members, once each", g.list_of(*rest),
                        g.list_of(*want, *g.items(comments)))
        else:
            g.ensure("nothing else", not rest, rest)
    ops = sql.script(g.force(g.method(t, "drop_stmt")))
    g.ensure("one type is dropped", len(ops) == 1 and ops[0][0] == "droptype", ops)
    g.ensure_eq("the type dropped", ops[0][1], q)
    g.cover("struct")


# ---------------------------------------------------------------------- schemas
def atom(kind, optional=False):
    "Contract of a method of an object: a text (or none, undetermined) that does the thing to the object."
    def handler(e, self):
        import z3
        from pyvc.values import Atom, SStr, Text

        k = e.term(e.getattr(e.getattr(self, "name"), "quoted_id"))
        if optional and e.choose(e.fn(f"{kind}.none", Text, z3.BoolSort())(k)):
            return None
        return SStr([Atom(e.fn(kind, Text, Text)(k), "stmt", (kind, self))])
    return handler


def use_object_contracts(g, d, names=("create_stmt", "drop_stmt"), constraints=True):
    if not g.symbolic:
        return
    for cls, k in ((ot.EnumType, "enum"), (d.struct, "struct"), (d.table, "table")):
        ddl.by_contract(g, cls, "create_stmt", atom(f"create {k}"))
        ddl.by_contract(g, cls, "drop_stmt", atom(f"drop {k}"))
    if constraints:
        ddl.by_contract(g, d.table, "add_constraints_stmt", atom("add constraints", True))
        ddl.by_contract(g, d.table, "drop_constraints_stmt", atom("drop constraints", True))


def objects(g, d, p):
    qual = ("qualified",)
    enums = g.seq(f"{p}.e", lambda q: g.new(ot.EnumType, qualified(g, q, qual), g.seq(f"{q}.v", lambda r: g.text(r))), key_of2)
    structs = g.seq(f"{p}.s", lambda q: g.new(d.struct, qualified(g, q, qual), g.list_of()), key_of2)
    tables = g.seq(f"{p}.t", lambda q: g.new(d.table, qualified(g, q, qual), g.list_of(), primary_key=()), key_of2)
    return enums, structs, tables


def key_of2(x):
    return x.name.id


def namespace(g, d, name, enums, structs, tables):
    return g.new(d.namespace, g.new(LocalId, name), enums=enums, structs=structs, tables=tables)


def kinds(g, d, ops, obs, verb):
    "The operations expected for the objects, in order."
    if g.symbolic:
        return [g.map(xs, lambda x, k=k: ("opaque", (f"{verb} {k}", x))) for k, xs in obs]


def native_ops(d, text):
    return sql.script(text, d.name)


def one_op(d, text):
    r = [o for o in sql.script(text, d.name)]
    return r


def expect_objects(g, d, enums, structs, tables, create):
    "What creating (dropping) the objects of a schema amounts to."
    verb = "create" if create else "drop"
    if g.symbolic:
        f = lambda xs, k: g.map(xs, lambda x: ("opaque", (f"{verb} {k}", x)))
    else:
        f = lambda xs, k: [op for x in xs for op in sql.script(getattr(x, f"{verb}_stmt")(), d.name)]
    if create:
        parts = [f(enums, "enum"), f(structs, "struct"), f(tables, "table")]
    else:
        parts = [f(g.reversed(tables), "table"), f(g.reversed(structs), "struct"), f(g.reversed(enums), "enum")]
    return [y for p in parts for y in g.items(p)]


def populated(g, d, p):
    enums, structs, tables = objects(g, d, p)
    if not g.symbolic:
        for e in enums:
            g.assume(len(e.values) > 0)
            without_backslashes(g, d, e.values)
        structs = [d.struct(s.name, [ot.StructMember(LocalId("m"), sql_type(g, "mt"))]) for s in structs]
        tables = [ddl.table(g, d, t.name, g.seq("c", lambda p: column(g, p, None, d.column, description=False), key_of),
                            g.seq("k", lambda p: ddl.abstract_constraint(g, p), ddl.ckey), "t") for t in tables]
    return enums, structs, tables


def schema_ops(g, d, name, create):
    if g.truth(g.eq(name, "")):
        return []
    if d is MSSQL and create:
        return [("createschema", name, "unless", name)]
    return [("createschema" if create else "dropschema", name)]


def schema_contract(g, d):
    use_quoting_contracts(g)
    use_object_contracts(g, d)
    enums, structs, tables = populated(g, d, "o")
    name = g.text("schema") if g.flag("any name") else g.name_text("schema")
    ns = namespace(g, d, name, enums, structs, tables)

    def check(what, method, *want):
        r = g.outcome(ns, method)
        g.ensure(f"{what}: not refused", not r.raised, r)
        if r.raised:
            return
        got = sql.script(g.force(r.value), d.name)
        g.ensure_eq(what, g.list_of(*got), g.list_of(*[x for w in want for x in w]))

    cs, ds = schema_ops(g, d, name, True), schema_ops(g, d, name, False)
    co, do = (expect_objects(g, d, enums, structs, tables, c) for c in (True, False))
    check("the schema is created", "create_schema_stmt", cs)
    check("the schema is dropped", "drop_schema_stmt", ds)
    check("the objects are created, types first", "create_objects_stmt", co)
    check("the objects are dropped in reverse", "drop_objects_stmt", do)
    check("everything is created", "create_stmt", cs, co)
    check("everything is dropped", "drop_stmt", do, ds)
    check("printed", "__str__", cs, co)
    for verb in ("add", "drop"):
        if g.symbolic:
            want = g.filter(tables, lambda t: none_of(g, f"{verb} constraints", t), lambda t: ("opaque", (f"{verb} constraints", t)))
            check(f"constraints: {verb}", f"{verb}_constraints_stmt", g.items(want))
        else:
            check(f"constraints: {verb}", f"{verb}_constraints_stmt",
                  [op for t in tables for op in sql.script(getattr(t, f"{verb}_constraints_stmt")(), d.name)])
    g.cover("schema")


def none_of(g, kind, o):
    import z3
    from pyvc.values import SBool, Text

    e = g.e
    k = e.term(e.getattr(e.getattr(o, "name"), "quoted_id"))
    return SBool(z3.Not(e.fn(f"{kind}.none", Text, z3.BoolSort())(k)))


def catalog_contract(g, d):
    "The whole database: schemas first, then what is in them; removal in reverse. (The sorting of schemas: P09.)"
    use_quoting_contracts(g)
    if g.symbolic:
        for name, kind in (("create_schema_stmt", "create schema"), ("drop_schema_stmt", "drop schema"),
                           ("create_objects_stmt", "create objects"), ("drop_objects_stmt", "drop objects"),
                           ("add_constraints_stmt", "add constraints"), ("drop_constraints_stmt", "drop constraints")):
            ddl.by_contract(g, d.namespace, name, atom(kind, True))
        g.override(ot.Catalog.sort, lambda e, self: None)
        spaces = g.seq("ns", lambda p: g.new(d.namespace, g.new(LocalId, g.text(f"{p}.name"))), key_of2)
    else:
        spaces = g.seq("ns", lambda p: namespace(g, d, g.name_text(f"{p}.name"), *populated(g, d, p)), key_of2)
        # no references between schemas: the order does not matter
        for n in spaces:
            for t in n.tables.values():
                for k in list(t.constraints.keys()):
                    if not isinstance(t.constraints[k], (ot.UniqueConstraint, ot.CheckConstraint)):
                        t.constraints.remove(k)
    cat = g.new(ot.Catalog, spaces)

    def part(kind, method, rev=False):
        xs = spaces
        if not g.symbolic:
            xs = list(cat.namespaces.values())
            return [op for n in (xs[::-1] if rev else xs) for op in sql.script(getattr(n, method)(), d.name)]
        return g.items(g.filter(g.reversed(xs) if rev else xs, lambda n: none_of(g, kind, n),
                                lambda n: ("opaque", (kind, n))))

    def check(what, method, *parts):
        r = g.outcome(cat, method)
        g.ensure(f"{what}: not refused", not r.raised, r)
        if not r.raised:
            got = sql.script(g.force(r.value), d.name)
            g.ensure_eq(what, g.list_of(*got), g.list_of(*[x for p in parts for x in part(*p)]))

    create = (("create schema", "create_schema_stmt"), ("create objects", "create_objects_stmt"))
    cons = ("add constraints", "add_constraints_stmt")
    check("schemas are created, then objects", "create_stmt", *create)
    check("constraints are added separately", "add_constraints_stmt", cons)
    check("printed", "__str__", *create, cons)
    check("objects are dropped in reverse, then schemas", "drop_stmt", ("drop objects", "drop_objects_stmt", True),
          ("drop schema", "drop_schema_stmt", True))
    g.cover("catalog")


def declare(d):
    n = nm(d)
    contract("P08", f"{n}_definition", [B + "Column.column_spec", B + "Column.data_spec"] + own(d, f"{d.column.__name__}.data_spec"),
             covers=("defined",))(lambda g: definition_contract(g, d))
    contract("P08", f"{n}_actions", [B + "Column." + x for x in ("create_stmt", "drop_stmt", "soft_drop_stmt", "hard_drop_stmt", "rename_stmt")],
             covers=("actions",))(lambda g: action_contract(g, d))
    contract("P08", f"{n}_create", [B + "Table.create_stmt", B + "Table.create_keys"] + own(d, f"{d.table.__name__}.create_stmt"),
             covers=("created",))(lambda g: create_contract(g, d))
    contract("P08", f"{n}_create_values", [B + "EnumTable.create_stmt"], covers=("created",))(lambda g: create_contract(g, d, True))
    contract("P08", f"{n}_drop", [B + "Table.drop_stmt", B + "Table.drop_if_exists_stmt"], covers=("dropped",))(lambda g: drop_contract(g, d))
    contract("P08", f"{n}_constraints", [B + "Table.add_constraints_stmt", B + "Table.drop_constraints_stmt", B + "Table.table_constraints"],
             covers=("constraint",))(lambda g: constraints_contract(g, d))
    contract("P08", f"{n}_schema", [B + "Namespace." + x for x in ("create_stmt", "drop_stmt", "create_objects_stmt", "drop_objects_stmt", "create_schema_stmt", "drop_schema_stmt", "add_constraints_stmt", "drop_constraints_stmt")],
             covers=("schema",))(lambda g: schema_contract(g, d))


for _d in ALL:
    declare(_d)
for _d in (BASE, POSTGRESQL):
    contract("P08", f"{nm(_d)}_struct", [B + "StructType.create_stmt", B + "StructType.drop_stmt"], covers=("struct",))(
        lambda g, d=_d: struct_contract(g, d))
contract("P08", "enum", [B + "EnumType." + x for x in ("create_stmt", "drop_stmt", "soft_drop_stmt", "hard_drop_stmt")],
         covers=("enum",))(enum_contract)
contract("P08", "catalog", [B + "Catalog." + x for x in ("create_stmt", "drop_stmt", "add_constraints_stmt", "__str__")],
         covers=("catalog",))(lambda g: catalog_contract(g, BASE))

from pysqlsync.model import data_types as _dt
from pysqlsync.dialect.oracle.data_types import OracleTimestampType, OracleVariableCharacterType
from pysqlsync.dialect.snowflake.data_types import SnowflakeDateTimeType

for _m, _c, _t in (("oracle", "OracleColumn", [(OracleTimestampType, True), (_dt.SqlTimestampType, True), (_dt.SqlDateType, False), (OracleVariableCharacterType, False)]),
                   ("snowflake", "SnowflakeColumn", [(SnowflakeDateTimeType, True), (_dt.SqlTimestampType, True), (_dt.SqlDateType, False), (_dt.SqlVariableCharacterType, False)])):
    contract("P08", f"{_m}_timestamp_default", [f"pysqlsync/dialect/{_m}/object_types.py::{_c}.default_expr", f"pysqlsync/dialect/{_m}/object_types.py::{_c}.data_spec"],
             covers=("timestamp", "other"), samples=100)(lambda g, m=_m, c=_c, t=_t: timestamp_default(g, m, c, t))
