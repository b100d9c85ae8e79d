"""P07: changes of enumerations and composite types never lose values or members."""
from pysqlsync.formation import object_types as ot
from pysqlsync.model.id_types import LocalId

from pyvc.contract import contract
from spec import sql

from . import ddl
from .common import key_of, qname_of, qualified, sql_type, type_tokens, use_quoting_contracts
from .ddl import BASE, DELTA, MSSQL, MYSQL, ORACLE, POSTGRESQL, SNOWFLAKE

M = "pysqlsync.formation.mutation.Mutator."
ALL = [BASE, POSTGRESQL, MYSQL, MSSQL, ORACLE]


def two_names(g, p):
    "Names of the two definitions: the same, or different ones."
    a = qualified(g, f"{p}.source", ("qualified",))
    g.force(a.namespace)
    if g.flag("same name") or not g.symbolic and g.rng.random() < 0.6:
        return a, g.new(type(a), a.namespace, a.id), True
    b = qualified(g, f"{p}.target", ("qualified",))
    g.assume(g.Not(g.And(g.eq(a.namespace, b.namespace), g.eq(a.id, b.id))))
    return a, b, False


def values(g, p):
    xs = g.seq(p, lambda q: g.text(q), key=lambda v: v)
    return xs


def enum_contract(g, d):
    use_quoting_contracts(g)
    a, b, same = two_names(g, "enum")
    v = g.text("v")
    mode = g.choice("mode", ["identical", "none removed", "focus"])
    if mode == "identical":
        old = values(g, "old")
        new = old
    elif mode == "focus":
        # an arbitrary value, and where it is listed
        ina, inb = g.flag("in source"), g.flag("in target")
        old = g.around("old", lambda q: g.text(q), lambda x: x, v, v if ina else None)
        new = g.around("new", lambda q: g.text(q), lambda x: x, v, v if inb else None)
    else:
        old, new = values(g, "old"), values(g, "new")
    if not g.symbolic and mode != "identical" and g.rng.random() < 0.7:
        # mostly, values are only added
        xs = [x for x in old if x not in new]
        new = list(new)
        for x in xs:
            if mode == "focus" and x == v:
                inb = True
            new.insert(g.rng.randint(0, len(new)), x)
    s, t = g.new(ot.EnumType, a, old), g.new(ot.EnumType, b, new)
    r = g.outcome(g.new(d.mutator), "mutate_enum_stmt", s, t)
    if not same:
        g.cover("other object")
        g.ensure("another object is not morphed", r.raised and isinstance(r.value, ot.FormationError), r)
        return
    if r.raised:
        g.cover("refused")
        g.ensure("refused with the documented error", isinstance(r.value, ot.FormationError), r)
        g.ensure("refused only if a value disappears", mode != "identical")
        removed = g.filter(old, lambda x: g.Not(g.contains(new, x)))
        g.ensure("refused only if a value disappears", g.gt(g.length(removed), 0))
        return
    if mode == "focus" and ina:
        g.ensure("a value does not disappear", inb)
    ops = sql.script(g.force(r.value), d.name)
    items = ddl.flatten(ops, ("altertype",))
    for op in ops:
        for x in each(op):
            if x[0] != "altertype":
                g.fail("only the enumeration is altered", x)
                return
            g.ensure_eq("only the enumeration is altered", x[1], qname_of(g, a))
    got = sql.smap(items, lambda x: [x[1]])
    want = g.filter(new, lambda x: g.Not(g.contains(old, x)), lambda x: ("addvalue", x))
    g.ensure_eq("exactly the new values are added, in order", g.list_of(*got), want)
    if mode == "identical":
        g.cover("identical")
        g.ensure("equal definitions emit nothing", g.force(r.value) is None, r)
    elif mode == "focus" and inb and not ina:
        g.cover("added")
        n = [x for x in ddl.involving(g, "once", got, lambda x: g.eq(x[1], v))]
        g.ensure("the new value is added once", len(n) == 1, n)


def each(item):
    "The elements (of the cases) of a list."
    if hasattr(item, "cases"):
        for _, xs in item.cases:
            for x in xs:
                yield from each(x)
    else:
        yield item


def migrate_contract(g, d):
    "The table that takes over from an enumeration gets every value of it."
    use_quoting_contracts(g)
    vals = g.seq("values", lambda q: g.text(q))
    if not g.symbolic:
        g.assume(len(vals) > 0)
    e = g.new(ot.EnumType, qualified(g, "enum", ("qualified",)), vals)
    qid = qualified(g, "table")
    t = g.new(d.table, qid, g.list_of(), primary_key=())
    ops = sql.script(g.force(g.method(g.new(d.mutator), "migrate_enum_stmt", e, t)), d.name)
    if len(ops) != 1 or ops[0][0] != "insert":
        g.fail("one insertion", ops)
        return
    _, q, cols, rows, rest = ops[0]
    g.ensure_eq("into the table", q, qname_of(g, qid))
    g.ensure_eq("into the column of values", g.list_of(*cols), g.list_of("value"))
    g.ensure_eq("every value once, in order", g.list_of(*rows), g.map(vals, lambda v: ((("str", v),),)))
    if d is POSTGRESQL:
        from spec.sql import lex
        g.ensure_eq("values present are kept", tuple(rest), tuple(lex('ON CONFLICT ("value") DO NOTHING')))
    else:
        g.ensure("nothing else", not rest, rest)
    g.cover("filled")


# ---------------------------------------------------------------------- composite types
def member(g, p, name=None):
    return g.new(ot.StructMember, g.new(LocalId, name if name is not None else g.name_text(f"{p}.name")),
                 sql_type(g, f"{p}.type"), g.opt(f"{p}.description", g.text(f"{p}.description")))


def struct_contract(g, d):
    use_quoting_contracts(g)
    a, b, same = two_names(g, "struct")
    n = g.name_text("n")
    mode = g.choice("mode", ["identical", "members", "comment"])
    desc = lambda p: g.opt(f"{p}.description", g.text(f"{p}.description"))
    u = v = None
    if mode == "identical":
        xs = g.seq("xs", lambda p: member(g, p), key_of)
        ys = xs
        da = desc("source")
        db = da
    else:
        u = member(g, "u", n) if mode == "members" and g.flag("in source") else None
        v = member(g, "v", n) if mode == "members" and g.flag("in target") else None
        if u is not None and v is not None and g.flag("same member"):
            v = g.new(ot.StructMember, g.new(LocalId, n), u.data_type, u.description)
        xs = g.around("xs", lambda p: member(g, p), key_of, n, u)
        ys = g.around("ys", lambda p: member(g, p), key_of, n, v)
        da = desc("source")
        db = desc("target") if mode == "comment" or not g.symbolic else da
    s, t = g.new(d.struct, a, xs, da), g.new(d.struct, b, ys, db)
    r = g.outcome(g.new(d.mutator), "mutate_struct_stmt", s, t)
    if not same:
        g.cover("other object")
        g.ensure("another object is not morphed", r.raised and isinstance(r.value, ot.FormationError), r)
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    text = g.force(r.value)
    if mode == "identical":
        g.cover("identical")
        g.ensure("equal definitions emit nothing", text is None, text)
        return
    ops = sql.script(text, d.name)
    q = qname_of(g, a)
    acts, comments, remarks = [], [], []
    for op in ops:
        kinds = set()
        for x in each(op):
            kinds.add(x[0])
            if x[0] == "altertype":
                g.ensure_eq("only the type is altered", x[1], q)
            elif x[0] == "commenton":
                comments.append(x)
            else:
                g.fail("only the type is altered", x)
                return
        (remarks if kinds == {"commenton"} else acts).append(op)
    items = sql.smap(ddl.flatten(acts, ("altertype",)), lambda x: [x[1]])
    mine = ddl.involving(g, "other members are left to themselves", items, lambda x: g.eq(x[1], n))
    # the whole list of actions
    drops = g.filter(xs, lambda x: g.Not(g.has_key(ys, x.name.id)), lambda x: ("drop", x.name.id))
    adds = g.filter(ys, lambda x: g.Not(g.has_key(xs, x.name.id)),
                    lambda x: ("add", x.name.id, {"type": type_tokens(g, x.data_type)}))
    if not g.symbolic:
        shared = [x for x in items if x[0] == "alter"]
        g.ensure_eq("members dropped, once each", [x for x in items if x[0] == "drop"], drops)
        g.ensure_eq("members added, once each", [x for x in items if x[0] == "add"], adds)
        for x in shared:
            g.ensure("only shared members are retyped", g.contains([y.name.id for y in xs], x[1]))
    else:
        got = lambda k: g.filter(g.list_of(*items), lambda x: x[0] == k)
        g.ensure_eq("members dropped, once each", got("drop"), drops)
        g.ensure_eq("members added, once each", got("add"), adds)
    # the member in focus
    if u is None and v is None:
        g.ensure("nothing happens to other members", not mine, mine)
    elif v is None:
        g.cover("dropped")
        g.ensure("the member is dropped once", [x[0] for x in mine] == ["drop"], mine)
    elif u is None:
        g.cover("added")
        if [x[0] for x in mine] != ["add"]:
            g.fail("the member is added once", mine)
            return
        g.ensure_eq("the type of the member", mine[0][2]["type"], type_tokens(g, v.data_type))
    else:
        g.cover("shared")
        if not mine:
            g.ensure_eq("a member of another type is retyped", u.data_type, v.data_type)
        else:
            if len(mine) != 1 or mine[0][0] != "alter":
                g.fail("the member is retyped once", mine)
                return
            g.ensure("a member of the same type is not retyped", g.Not(g.eq(u.data_type, v.data_type)), mine)
            g.ensure_eq("the new type of the member", mine[0][3], type_tokens(g, v.data_type))
    # the comment
    if d is POSTGRESQL:
        path = tuple(x for x in q if x is not None)
        tcs = [c for c in comments if c[1] == "TYPE"]
        for c in comments:
            if c[1] != "TYPE":
                g.ensure("only comments of the type and its members", c[1] == "COLUMN", c)
        member_comment(g, remarks, path, n, u, v)
        eq = g.eq(da, db)
        if not tcs:
            g.ensure("the comment ends as in the new definition", eq)
        else:
            g.cover("comment")
            g.ensure("the comment is set once", len(tcs) == 1, tcs)
            g.ensure("an unchanged comment is not touched", g.Not(eq))
            g.ensure_eq("the comment is that of the type", tcs[0][2], path)
            g.ensure_eq("the comment ends as in the new definition", tcs[0][3], db)
    else:
        g.ensure("no comments", not comments, comments)


def member_comment(g, remarks, path, n, u, v):
    "The comment of the member in focus ends as in the new definition."
    mine = lambda x: False if x[1] != "COLUMN" else g.eq(x[2][-1], n)
    got = ddl.involving(g, "no other member's comment is on this member", remarks, mine)
    for x in got:
        g.ensure_eq("member comments are on members of the type", tuple(x[2][:-1]), path)
    if v is None:
        g.ensure("a member that is not in the new definition gets no comment", not got, got)
        return
    g.ensure("a member comment is set at most once", len(got) <= 1, got)
    after = got[-1][3] if got else (u.description if u is not None else None)
    g.ensure_eq("the member comment ends as in the new definition", g.force(after), g.force(v.description))
    if got:
        g.cover("member comment")
        if u is not None:
            g.ensure("an unchanged member comment is not touched", g.Not(g.eq(u.description, v.description)), got)


def nm(d):
    return {"ansi": "base"}.get(d.name, d.name)


for _d in ALL:
    own = [f"{_d.mutator.__module__}.{_d.mutator.__name__}.mutate_enum_stmt"] if "mutate_enum_stmt" in vars(_d.mutator) else []
    if _d is BASE or own:
        contract("P07", f"{nm(_d)}_enum", [M + "mutate_enum_stmt", M + "check_identity"] + own,
                 covers=("other object", "refused", "identical", "added"))(lambda g, d=_d: enum_contract(g, d))
    own = [f"{_d.mutator.__module__}.{_d.mutator.__name__}.migrate_enum_stmt"] if "migrate_enum_stmt" in vars(_d.mutator) else []
    if _d is BASE or own:
        contract("P07", f"{nm(_d)}_migrate_enum", [M + "migrate_enum_stmt"] + own, covers=("filled",))(
            lambda g, d=_d: migrate_contract(g, d))
    own = [f"{_d.mutator.__module__}.{_d.mutator.__name__}.mutate_struct_stmt"] if "mutate_struct_stmt" in vars(_d.mutator) else []
    if _d is BASE or own:
        contract("P07", f"{nm(_d)}_struct", [M + "mutate_struct_stmt", M + "check_identity"] + own,
                 covers=("other object", "identical", "dropped", "added", "shared") + (("comment", "member comment") if _d is POSTGRESQL else ()))(
            lambda g, d=_d: struct_contract(g, d))
