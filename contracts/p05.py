"""P05: table changes add, alter and drop exactly what differs."""
from pysqlsync.formation import mutation, object_types as ot
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.data_types import SqlEnumType, SqlIntegerType, SqlUserDefinedType, SqlVariableCharacterType

from pyvc.contract import contract, finding
from spec import sql

from .common import column, key_of, qualified, qname_of, use_quoting_contracts
from . import ddl
from .ddl import BASE, MSSQL, MYSQL, ORACLE, POSTGRESQL


def migration_needed(g, d, s, t):
    "A column of text or enumeration values that becomes an integer (a key into a lookup table) carries its data over."
    kinds = [SqlEnumType, SqlVariableCharacterType] + ([SqlUserDefinedType] if d is POSTGRESQL else [])
    return g.And(g.Not(g.eq(s.data_type, t.data_type)), g.isinstance(t.data_type, SqlIntegerType),
                 g.Or(*[g.isinstance(s.data_type, k) for k in kinds]))


def use_column_contracts(g, d, refuse=None):
    """
    Contract of mutate_column_stmt (P04): nothing for equal definitions, else some alteration of that column, or a refusal.
    Contract of migrate_column_stmt (below): a statement that fills the new column from the private one.
    """
    if not g.symbolic:
        return
    import z3
    from pyvc.values import Atom, PyRaise, SOpt, SStr, Text, Obj

    e = g.e

    def mutate(e, self, s, t):
        k = e.term(s.name.id)
        if refuse is not None and e.choose(e.eq(s.name.id, refuse)):
            x = ot.ColumnFormationError.__new__(ot.ColumnFormationError)
            x.args = ("refused",)
            x.__dict__["column"] = s.name
            raise PyRaise(x)
        if e.choose(z3.Or(e.eq(s, t), e.fn("alteration.none", Text, z3.BoolSort())(k))):
            return None
        return SStr([Atom(e.fn("alteration", Text, Text)(k), "stmt", ("alteration", s, t))])

    def migrate(e, self, st, s, tt, t):
        k = e.term(s.name.id)
        return SStr([Atom(e.fn("migration", Text, Text)(k), "stmt", ("migration", st, s, tt, t))])

    ddl.by_contract(g, d.mutator, "mutate_column_stmt", mutate)
    ddl.by_contract(g, d.mutator, "is_column_migrated", migrated(g, d))
    if d.migrates:
        ddl.by_contract(g, d.mutator, "migrate_column_stmt", migrate)


def migrated(g, d):
    "Contract of is_column_migrated (migration_contract)."
    return lambda e, self, s, t: e.choose(g.z(migration_needed(g, d, s, t)))


def migration_contract(g, d):
    s = column(g, "s", None, d.column)
    t = column(g, "t", None, d.column)
    r = g.outcome(g.new(d.mutator), "is_column_migrated", s, t)
    g.ensure("no refusal", not r.raised, r)
    g.cover("decided")
    got = g.truth(r.value) if not r.raised else None
    g.ensure_eq("data is carried over from text or enumeration values to integers", got, migration_needed(g, d, s, t))


def expected_alteration(g, d, s, t):
    "What mutate_column_stmt gives for the pair (natively: what the real function returns), as actions."
    if g.symbolic:
        k = g.e.term(s.name.id)
        import z3
        from pyvc.values import SBool, Text
        none = SBool(z3.Or(g.e.eq(s, t), g.e.fn("alteration.none", Text, z3.BoolSort())(k)))
        return [] if g.truth(none) else [("opaque", ("alteration", s, t))]
    text = g.method(d.mutator(), "mutate_column_stmt", s, t)
    return [] if text is None else sql.actions(sql.lex(text, d.name in sql.BACKSLASH), d.name)


def concerns_column(g, n):
    priv = ddl.private(g, n)

    def f(item):
        scope, a = item
        names = []
        if a[0] in ("add", "drop", "alter", "redefine", "modify"):
            names = [a[1]]
        elif a[0] == "rename":
            names = [a[1], a[2]]
        elif a[0] == "opaque":
            if a[1][0] == "alteration":
                names = [a[1][1].name.id, a[1][2].name.id]
            else:
                names = [a[1][2].name.id]
        return g.Or(False, *[g.Or(g.eq(x, n), g.eq(x, priv)) for x in names])
    return f


def concerns_constraint(g, m):
    def f(item):
        a = item[1]
        return g.eq(a[1], m) if a[0] in ("addc", "dropc") else g.Or(False)
    return f


TABLE_OPS = {"add", "drop", "alter", "redefine", "modify", "rename", "addc", "dropc", "opaque"}


def check_shape(g, items, q, extra=()):
    "Only alterations of the table appear, and whatever else the dialect has."
    from pyvc.values import Seg

    def walk(xs):
        for i in xs:
            if isinstance(i, Seg):
                for c, ys in i.cases:
                    walk(ys)
            else:
                scope, a = i
                if scope is not None:
                    g.ensure_eq("only the table is altered", scope, q)
                    if a[0] not in TABLE_OPS and a[0] not in extra:
                        g.fail("only columns and constraints are altered", a)
                elif a[0] == "opaque":
                    pass
                elif a[0] not in extra:
                    g.fail("nothing else is emitted", a)
    walk(items)


def migration_filter(g, d, items):
    "Natively the migration appears as statements in full; symbolically as one opaque item."
    out = []
    for i in items:
        if not hasattr(i, "cases") and i[0] is None and i[1][0] in ("insert", "insertselect", "update"):
            continue
        out.append(i)
    return out


def setup(g, d):
    use_quoting_contracts(g)
    use_column_contracts(g, d)
    ddl.use_definition_contracts(g, d)
    qid = qualified(g, "table", ("qualified",))
    n = g.name_text("n")
    g.assume(g.Not(ddl.starts(g, n, ddl.PRIVATE)))
    return qid, n


def others_not_migrated(g, d, cs, ct):
    "Dialects without a migration of their own: no shared column asks for one (recorded as a known finding)."


def run_mutation(g, d, a, b):
    """
    The column and constraint part of the change: the method all dialects inherit (what the dialects add to it is under
    contract below). Concrete runs go through the method of the dialect.
    """
    m = g.new(d.mutator)
    if g.symbolic:
        return g.outcome(mutation.Mutator.mutate_table_stmt, None, m, a, b)
    return g.outcome(m, "mutate_table_stmt", a, b)


def columns_contract(g, d, where):
    qid, n = setup(g, d)
    q = qname_of(g, qid)
    ins, int_ = "source" in where, "target" in where
    s = column(g, "s", n, d.column) if ins else None
    t = column(g, "t", n, d.column) if int_ else None
    src = ddl.columns_around(g, "sc", d, n, s)
    tgt = ddl.columns_around(g, "tc", d, n, t)
    skeys = same_constraints(g)
    a = ddl.table(g, d, qid, src, skeys, "source")
    b = ddl.table(g, d, qid, tgt, skeys, "target")
    if not d.migrates:
        no_migration(g, d, src, tgt)
    if not g.symbolic and d.migrates:
        give_references(g, b, src, tgt, d)
    r = run_mutation(g, d, a, b)
    if r.raised:
        if g.symbolic:
            g.fail("the change is not refused", r)
        else:
            check_refusal(g, d, r)
        return
    text = g.force(r.value)
    ops = sql.script(text, d.name)
    items = migration_filter(g, d, ddl.flatten(ops))
    extra = {"postgresql": ("commenton",), "mysql": ("comment",)}.get(d.name, ())
    check_shape(g, items, q, () if g.symbolic else extra)
    got = ddl.involving(g, "no other column's change touches this column", items, concerns_column(g, n))
    acts = [x[1] for x in got]
    if ins and int_:
        expect_shared(g, d, s, t, acts)
    elif ins:
        g.cover("dropped")
        if len(acts) != 1 or acts[0][0] != "drop":
            g.fail("a column only in the old definition is dropped exactly once", acts)
            return
        g.ensure_eq("the dropped column", acts[0][1], n)
    elif int_:
        g.cover("added")
        if len(acts) != 1 or acts[0][0] != "add":
            g.fail("a column only in the new definition is added exactly once", acts)
            return
        g.ensure_eq("the added column", acts[0][1], n)
        ddl.check_column(g, "the added column", d, acts[0][2], t)
    else:
        g.cover("absent")
        g.ensure("a column in neither definition is not touched", not acts, acts)
    if d is MSSQL:
        mssql_defaults(g, items, n, s, t, inherited=g.symbolic)


def same_constraints(g):
    return g.seq("sk", lambda p: ddl.abstract_constraint(g, p), ddl.ckey, facts=lambda c: (
        [g.z(g.Not(ddl.starts(g, ddl.ckey(c), "df_")))] if g.symbolic else [True]))


def use_inherited_contract(g, d):
    "Contract of the inherited method: no statement, or a statement on columns and constraints (columns_contract)."
    if not g.symbolic:
        return
    import z3
    from pyvc.values import Atom, SStr, Text

    def inherited(e, self, source, target):
        if e.choose(z3.Bool("inherited.none")):
            return None
        return SStr([Atom(z3.Const("inherited", Text), "stmt", ("inherited", source, target))])

    g.override(mutation.Mutator.mutate_table_stmt, inherited)


def inherited_part(g, ops, a, b):
    "The inherited script is part of the script exactly once; gives the rest."
    from pyvc.values import Seg

    if not g.symbolic:
        return ops
    rest = [x for x in ops if isinstance(x, Seg) or x[0] != "opaque"]
    inh = [x for x in ops if not isinstance(x, Seg) and x[0] == "opaque"]
    none = g.e.known(__import__("z3").Bool("inherited.none"))
    if len(inh) != (0 if none else 1):
        g.fail("the changes of columns and constraints are part of the script once", ops)
    for x in inh:
        g.ensure("the changes are those from the old to the new definition", x[1][1] is a and x[1][2] is b, x)
    return rest


def dialect_tables(g, d, n, s, t):
    qid = qualified(g, "table", ("qualified",))
    q = qname_of(g, qid)
    src = ddl.columns_around(g, "sc", d, n, s)
    tgt = ddl.columns_around(g, "tc", d, n, t)
    skeys = same_constraints(g)
    a = ddl.table(g, d, qid, src, skeys, "source")
    b = ddl.table(g, d, qid, tgt, skeys, "target")
    if not g.symbolic:
        if d.migrates:
            give_references(g, b, src, tgt, d)
        else:
            no_migration(g, d, src, tgt)
    return q, a, b


def comments_contract(g, d, where):
    "What PostgreSQL and MySQL add: comments end as in the new definition."
    use_quoting_contracts(g)
    use_inherited_contract(g, d)
    if g.symbolic:
        ddl.by_contract(g, d.mutator, "is_column_migrated", migrated(g, d))
    n = g.name_text("n")
    g.assume(g.Not(ddl.starts(g, n, ddl.PRIVATE)))
    s = column(g, "s", n, d.column) if "source" in where else None
    t = column(g, "t", n, d.column) if "target" in where else None
    q, a, b = dialect_tables(g, d, n, s, t)
    r = g.outcome(g.new(d.mutator), "mutate_table_stmt", a, b)
    if r.raised:
        if g.symbolic:
            g.fail("the change is not refused", r)
        else:
            check_refusal(g, d, r)
        return
    ops = inherited_part(g, sql.script(g.force(r.value), d.name), a, b)
    if g.symbolic:
        check_shape(g, ddl.flatten(ops), q, {"postgresql": ("commenton",), "mysql": ("comment",)}[d.name])
    g.cover("comments")
    if d is POSTGRESQL:
        comment_state(g, d, ops, q, n, s, t, a, b)
    else:
        mysql_table_comment(g, ops, q, a, b)


def mssql_default_contract(g, where):
    use_quoting_contracts(g)
    use_inherited_contract(g, MSSQL)
    n = g.name_text("n")
    g.assume(g.Not(ddl.starts(g, n, ddl.PRIVATE)))
    s = column(g, "s", n, MSSQL.column) if "source" in where else None
    t = column(g, "t", n, MSSQL.column) if "target" in where else None
    q, a, b = dialect_tables(g, MSSQL, n, s, t)
    r = g.outcome(g.new(MSSQL.mutator), "mutate_table_stmt", a, b)
    if r.raised:
        if g.symbolic:
            g.fail("the change is not refused", r)
        else:
            check_refusal(g, MSSQL, r)
        return
    ops = inherited_part(g, sql.script(g.force(r.value), "mssql"), a, b)
    items = ddl.flatten(ops)
    check_shape(g, items, q)
    g.cover("defaults")
    mssql_defaults(g, items, n, s, t, own=g.symbolic)


def expect_shared(g, d, s, t, acts):
    n = t.name.id
    priv = ddl.private(g, n)
    alt = expected_alteration(g, d, s, t)
    if d.migrates and g.truth(migration_needed(g, d, s, t)):
        g.cover("migrated")
        kinds = [x[0] for x in acts[:4]] if g.symbolic else None
        if g.symbolic:
            ok = kinds == ["rename", "add", "opaque", "drop"] and acts[2][1][0] == "migration"
        else:
            acts = acts[:2] + [None] + acts[2:]
            ok = [x[0] for x in acts[:2]] == ["rename", "add"] and len(acts) > 3 and acts[3][0] == "drop"
        if not ok:
            g.fail("a migrated column is renamed, re-created, filled, and only then dropped", acts)
            return
        g.ensure_eq("the old column is the one renamed", acts[0][1], n)
        g.ensure_eq("the old data is kept under the private name", acts[0][2], priv)
        g.ensure_eq("the new column has the old name", acts[1][1], n)
        ddl.check_column(g, "the re-created column", d, acts[1][2], t)
        if acts[0][3] is not None:
            ddl.check_column(g, "the renamed column keeps its definition", d, acts[0][3], s)
        if g.symbolic:
            m = acts[2][1]
            g.ensure("the migration is for this column", m[2] is s and m[4] is t, m)
        g.ensure_eq("the private column is the one dropped", acts[3][1], priv)
        rest = acts[4:]
    else:
        rest = acts
    # what remains is the alteration of the column, exactly once
    if len(rest) != len(alt):
        g.fail("a shared column is altered exactly as its definitions differ", f"{rest} instead of {alt}")
        return
    if alt:
        g.cover("altered")
    for x, y in zip(rest, alt):
        if g.symbolic:
            g.ensure("the alteration is for this column", x[0] == "opaque" and x[1][1] is s and x[1][2] is t, x)
        else:
            g.ensure_eq("the alteration", x, y)


def no_migration(g, d, src, tgt):
    if not g.symbolic:
        for x in src:
            for y in tgt:
                if x.name == y.name:
                    g.assume(not migration_needed(g, d, x, y))
        return
    # no column has a type from which data would have to be carried over
    e = g.e
    from pyvc.values import Seg
    for seq in (src,):
        for i in g.items(seq):
            if isinstance(i, Seg):
                el = e.canon(i.base)
                e.add_fact_on_base(i.base, g.z(g.Not(g.Or(*[g.isinstance(el.data_type, k) for k in
                                                            (SqlEnumType, SqlVariableCharacterType)]))))
            else:
                g.assume(g.Not(g.Or(*[g.isinstance(i.data_type, k) for k in (SqlEnumType, SqlVariableCharacterType)])))


def give_references(g, table, src, tgt, d):
    "Precondition of the migration: the new column references the table of values."
    from pysqlsync.model.id_types import LocalId, QualifiedId

    for x in src:
        for y in tgt:
            if x.name == y.name and migration_needed(g, d, x, y):
                g.assume(f"fk_{y.name.id}" not in table.constraints)
                table.constraints.add(ot.ForeignConstraint(
                    LocalId(f"fk_{y.name.id}"), (y.name,), ot.ConstraintReference(QualifiedId(None, "v"), (LocalId("id"),))))


def check_refusal(g, d, r):
    ok = d is MSSQL or d is MYSQL
    g.ensure("a change is refused only where the dialect may refuse it", ok, r)
    g.ensure("refused with a formation error", g.isinstance(r.value, ot.FormationError), r)


def mssql_defaults(g, items, n, s, t, inherited=False, own=False):
    name = ddl.cat(g, "df_", n)
    got = [x[1] for x in ddl.involving(g, "no other column's change touches this column's default", items,
                                       concerns_constraint(g, name))]
    old = g.force(s.default) if s is not None else None
    new = g.force(t.default) if t is not None else None
    if s is not None and t is not None:
        if inherited or g.truth(g.eq(old, new)):
            want = []
        else:
            want = (["dropc"] if old is not None else []) + (["addc"] if new is not None else [])
    elif s is not None:
        want = ["dropc"] if old is not None and not own else []
    else:
        want = []
    if [x[0] for x in got] != want:
        g.fail("the default constraint is dropped and added exactly as the default changes", got)
        return
    for x in got:
        if x[0] == "addc":
            if x[2][0] != "default":
                g.fail("the default constraint is a default", x)
                return
            g.ensure_eq("the new default", x[2][2], tuple(sql.lex(new)))
            g.ensure_eq("the new default is for this column", x[2][3], n)


def comment_state(g, d, ops, q, n, s, t, a, b):
    "PostgreSQL: comments end as in the new definition."
    path = tuple(x for x in (q[0], q[1]) if x is not None)

    def col(item):
        if item[0] != "commenton" or item[1] != "COLUMN":
            return g.Or(False)
        if len(item[2]) != len(path) + 1:
            return g.Or(False)
        return g.eq(item[2][-1], n)

    for i in ddl.involving(g, "no other column's comment is on this column", ops, col):
        g.ensure_eq("column comments are on columns of the table", tuple(i[2][:-1]), path)
    got = ddl.involving(g, "no other column's comment is on this column", ops, col)
    recreated = False
    if t is not None:
        before = None
        if s is not None:
            recreated = g.truth(migration_needed(g, d, s, t))
            before = None if recreated else s.description
        after = got[-1][3] if got else before
        g.ensure_eq("the column comment ends as in the new definition", g.force(after), g.force(t.description))
        g.ensure("a column comment is set at most once", len(got) <= 1, got)
    else:
        g.ensure("a column that is not in the new definition gets no comment", not got, got)
    tab = [x for x in ops if not hasattr(x, "cases") and x[0] == "commenton" and x[1] == "TABLE"]
    for x in tab:
        g.ensure_eq("the table comment is on the table", x[2], path)
    after = tab[-1][3] if tab else a.description
    g.ensure_eq("the table comment ends as in the new definition", g.force(after), g.force(b.description))


def mysql_table_comment(g, ops, q, a, b):
    from pyvc.values import Seg

    got = []
    for x in ops:
        if isinstance(x, Seg) or x[0] != "altertable":
            continue
        got += [y for y in x[2] if not isinstance(y, Seg) and y[0] == "comment"]
    old, new = ddl.short_comment(g, a), ddl.short_comment(g, b)
    after = got[-1][1] if got else old
    # MySQL does not tell an empty comment from no comment
    g.ensure_eq("the table comment ends as in the new definition", "" if after is None else after, "" if new is None else new)
    if g.truth(g.eq(old, new)):
        g.ensure("an unchanged table comment is not touched", not got, got)


FUNCS = ["pysqlsync.formation.mutation.Mutator.mutate_table_stmt"]
OWN = {"postgresql": "pysqlsync.dialect.postgresql.mutation.PostgreSQLMutator.mutate_table_stmt",
       "mysql": "pysqlsync.dialect.mysql.mutation.MySQLMutator.mutate_table_stmt",
       "mssql": "pysqlsync.dialect.mssql.mutation.MSSQLMutator.mutate_table_stmt"}
WHERE = {"both": ("source", "target"), "dropped": ("source",), "added": ("target",), "absent": ()}


def declare(d, where):
    covers = {"both": ("altered",) + (("migrated",) if d.migrates else ())}.get(where, (where,))
    name = "base" if d is BASE else d.name

    def columns(g):
        columns_contract(g, d, WHERE[where])
    contract("P05", f"{name}_columns_{where}", FUNCS, covers=covers, weight=9 if where == "both" else 4,
             paths=200000, seconds=700)(columns)
    if d in (POSTGRESQL, MYSQL):
        def comments(g):
            comments_contract(g, d, WHERE[where])
        contract("P05", f"{name}_comments_{where}", [OWN[d.name]], covers=("comments",), paths=200000, seconds=600,
                 weight=3)(comments)
    if d is MSSQL:
        def defaults(g):
            mssql_default_contract(g, WHERE[where])
        contract("P05", f"{name}_defaults_{where}", [OWN[d.name]], covers=("defaults",), paths=200000, seconds=600,
                 weight=3)(defaults)


def declare_migration(d):
    contract("P05", f"{'base' if d is BASE else d.name}_is_migrated",
             ["pysqlsync.formation.mutation.Mutator.is_column_migrated"], covers=("decided",))(
        lambda g: migration_contract(g, d))


for _d in (BASE, POSTGRESQL, MYSQL, MSSQL, ORACLE):
    declare_migration(_d)
    for _w in WHERE:
        declare(_d, _w)


# ---------------------------------------------------------------------- constraints
def single(g, p):
    return (g.new(LocalId, g.name_text(p)),)


def small_constraint(g, p, m):
    "A constraint on one column (definitions that are compared)."
    k = g.choice(f"{p}.kind", ["unique", "foreign", "check", "discriminated"])
    n = g.new(LocalId, m)
    if k == "unique":
        return g.new(ot.UniqueConstraint, n, single(g, f"{p}.col"))
    if k == "foreign":
        return g.new(ot.ForeignConstraint, n, single(g, f"{p}.col"),
                     g.new(ot.ConstraintReference, qualified(g, f"{p}.ref", ("qualified",)), single(g, f"{p}.refcol")))
    if k == "check":
        return g.new(ot.CheckConstraint, n, g.expr(f"{p}.condition"))
    return g.new(ot.DiscriminatedConstraint, n, single(g, f"{p}.col"), g.list_of(ddl.references(g, f"{p}.r")))


def kinds(item):
    "The kinds of actions in an item of a script."
    return {k for _, xs in item.cases for x in xs for k in kinds(x)} if hasattr(item, "cases") else {item[1][0]}


def constraints_contract(g, d, where, columns_differ=False):
    "A constraint is dropped and added exactly as it is in the old and in the new definition."
    use_quoting_contracts(g)
    use_column_contracts(g, d)
    if columns_differ:
        ddl.use_definition_contracts(g, d)
    qid = qualified(g, "table", ("qualified",))
    q = qname_of(g, qid)
    m = g.name_text("m")
    g.assume(g.Not(ddl.starts(g, m, "df_")))
    both = where == "both"
    make = small_constraint if both else ddl.unit_constraint
    old = make(g, "old", m) if where in ("both", "dropped") else None
    new = None
    if both:
        new = old if g.flag("same constraint") else make(g, "new", m)
    elif where == "added":
        new = make(g, "new", m)
    cols = g.seq("c", lambda p: column(g, p, None, d.column), key_of)
    cols2 = g.seq("c2", lambda p: column(g, p, None, d.column), key_of) if columns_differ else cols
    sc = ddl.constraints_around(g, "os", m, old)
    tc = ddl.constraints_around(g, "nt", m, new)
    a = ddl.table(g, d, qid, cols, sc, "source")
    b = ddl.table(g, d, qid, cols2, tc, "target")
    if not g.symbolic and d.migrates:
        give_references(g, b, cols, cols2, d)
    elif columns_differ:
        no_migration(g, d, cols, cols2)
    r = run_mutation(g, d, a, b)
    if r.raised:
        g.ensure("refused with an error on the table", g.isinstance(r.value, ot.TableFormationError), r)
        g.ensure_eq("the error names the table", qname_of(g, r.value.table), q)
        if not g.symbolic:
            pairs = [(x, y) for x in sc for y in tc if x.name == y.name]
            g.ensure("refused only if a shared constraint changed", any(x != y for x, y in pairs), r)
        g.cover("refused")
        return
    if both:
        g.ensure("a changed constraint is refused", g.eq(old, new))
    ops = sql.script(g.force(r.value), d.name)
    items = migration_filter(g, d, ddl.flatten(ops))
    extra = {"postgresql": ("commenton",), "mysql": ("comment",)}.get(d.name, ())
    check_shape(g, items, q, () if g.symbolic else extra)
    acts = [x[1] for x in ddl.involving(g, "no other constraint's change touches this constraint", items,
                                        concerns_constraint(g, m))]
    drop = old is not None and not both and ddl.is_ddl(old)
    add = new is not None and not both and ddl.is_ddl(new)
    if drop or add:
        g.cover("changed")
        if len(acts) != 1 or acts[0][0] != ("dropc" if drop else "addc"):
            g.fail("the constraint is dropped or added exactly once", acts)
            return
        g.ensure_eq("the constraint", acts[0][1], m)
        at = [i for i, x in enumerate(items) if not hasattr(x, "cases") and x[1] is acts[0]]
        if drop:
            g.ensure("dropped before any column is, on which it may depend", not any("drop" in kinds(x) for x in items[:at[0]]), items)
        else:
            g.ensure("added after all columns, on which it may depend", not any("add" in kinds(x) for x in items[at[0]:]), items)
        if add:
            ddl.check_constraint(g, "the added constraint", acts[0][2], new)
    else:
        g.ensure("an unchanged or virtual constraint is not touched", not acts, acts)


def identical_contract(g, d):
    "Equal definitions: no statement at all."
    use_quoting_contracts(g)
    use_column_contracts(g, d)
    qid = qualified(g, "table")
    cols = g.seq("c", lambda p: column(g, p, None, d.column), key_of)
    cons = g.seq("k", lambda p: ddl.abstract_constraint(g, p), ddl.ckey)
    pk = ddl.ids(g, "pk")
    a = ddl.table(g, d, qid, cols, cons, "table", pk=pk)
    b = g.new(d.table, qid, cols, primary_key=pk, constraints=cons, description=a.description)
    r = g.outcome(g.new(d.mutator), "mutate_table_stmt", a, b)
    g.cover("identical")
    g.ensure("not refused", not r.raised, r)
    g.ensure("identical definitions give no statement", g.is_none(r.value), r)


def refusal_contract(g):
    "A column change that SQL Server refuses is an error on the table."
    use_quoting_contracts(g)
    n = g.name_text("n")
    use_column_contracts(g, MSSQL, n)
    s = column(g, "s", n, MSSQL.column)
    t = column(g, "t", n, MSSQL.column)
    if not g.symbolic:
        g.assume(s.identity != t.identity)
    q, a, b = dialect_tables(g, MSSQL, n, s, t)
    if g.symbolic:
        no_migration(g, MSSQL, a_columns(g, a), None)
    r = run_mutation(g, MSSQL, a, b)
    g.cover("refused")
    g.ensure("the change is refused with an error on the table",
             r.raised and g.isinstance(r.value, ot.TableFormationError), r)
    g.ensure_eq("the error names the table", r.value.table, b.name)


def a_columns(g, a):
    return g.to_list(g.method(a.columns, "values"))


# ---------------------------------------------------------------------- statements that carry data over
def migrate_contract(g, d):
    "The new column of each row gets the key that the referenced table has for the old value."
    use_quoting_contracts(g)
    n = g.name_text("n")
    s = column(g, "s", n, d.column, types=MIGRATED[d.name])
    t = column(g, "t", n, d.column, types=[SqlIntegerType])
    qid = qualified(g, "table")
    ref = qualified(g, "lookup")
    fk = g.new(ot.ForeignConstraint, g.new(LocalId, g.name_text("fk")), (t.name,),
               g.new(ot.ConstraintReference, ref, (g.new(LocalId, g.name_text("key")),)))
    a = ddl.table(g, d, qid, g.list_of(s), g.list_of(), "source")
    b = ddl.table(g, d, qid, g.list_of(t), g.list_of(fk), "target")
    values = None
    if d is MYSQL and not g.symbolic and isinstance(s.data_type, SqlEnumType):
        values = list(s.data_type.values)
        g.assume(len(values) > 0)
    r = g.outcome(g.new(d.mutator), "migrate_column_stmt", a, s, b, t)
    g.ensure("no refusal", not r.raised, r)
    if r.raised:
        return
    g.cover("migrated")
    ts = sql.statements(sql.lex(g.force(r.value), d.name in sql.BACKSLASH))
    old = ddl.private(g, n)
    q, rq = qname_of(g, qid), qname_of(g, ref)
    c = sql.Cursor(ts[-1])
    c.word("UPDATE")
    g.ensure_eq("rows of the table are updated", c.qname(), q)
    data = word(c)
    if d is POSTGRESQL:
        c.word("SET")
        g.ensure_eq("the new column is set", c.ident(), n)
        c.punct("=")
        lookup = word(c)
        c.punct(".")
        g.ensure_eq("to the key", c.ident(), "id")
        c.word("FROM")
        g.ensure_eq("of the referenced table", c.qname(), rq)
        g.ensure_eq("alias", word(c), lookup)
        c.word("WHERE")
        g.ensure_eq("alias", word(c), data)
        c.punct(".")
        g.ensure_eq("for the old value", c.ident(), old)
        c.punct("::")
        c.word("VARCHAR")
        c.punct("=")
        g.ensure_eq("alias", word(c), lookup)
        c.punct(".")
        g.ensure_eq("by value", c.ident(), "value")
        c.end()
        g.ensure("one statement", len(ts) == 1, ts)
        return
    c.word("JOIN")
    g.ensure_eq("the referenced table", c.qname(), rq)
    lookup = word(c)
    c.word("ON")
    g.ensure_eq("alias", word(c), data)
    c.punct(".")
    g.ensure_eq("for the old value", c.ident(), old)
    c.punct("=")
    g.ensure_eq("alias", word(c), lookup)
    c.punct(".")
    g.ensure_eq("by value", c.ident(), "value")
    c.word("SET")
    g.ensure_eq("alias", word(c), data)
    c.punct(".")
    g.ensure_eq("the new column is set", c.ident(), n)
    c.punct("=")
    g.ensure_eq("alias", word(c), lookup)
    c.punct(".")
    g.ensure_eq("to the key", c.ident(), "id")
    c.end()
    g.ensure("the values are added to the lookup table first", len(ts) == 2, ts)
    if len(ts) != 2:
        return
    c = sql.Cursor(ts[0])
    c.word("INSERT", "INTO")
    g.ensure_eq("values go to the referenced table", c.qname(), rq)
    cols = c.group()
    g.ensure("the value column", len(cols) == 1 and cols[0][0] == "id", cols)
    g.ensure_eq("the value column", cols[0][1], "value")
    if c.accept("SELECT", "DISTINCT"):
        g.cover("values of the column")
        g.ensure("only for columns of text", g.isinstance(s.data_type, SqlVariableCharacterType))
        g.ensure_eq("values of the old column", c.ident(), old)
        c.word("FROM")
        g.ensure_eq("values in the table", c.qname(), q)
    else:
        g.cover("values of the type")
        g.ensure("only for enumerations", g.isinstance(s.data_type, SqlEnumType))
        c.word("VALUES")
        rows = sql.smap(sql.commas(list(c.until("ON"))), lambda x: [row_value(x)])
        want = values if values is not None else g.attr(s.data_type, "values")
        g.ensure_eq("every value of the enumeration", g.list_of(*rows), want)
    c.word("ON", "DUPLICATE", "KEY", "UPDATE")
    x = c.ident()
    c.punct("=")
    g.ensure_eq("values that are there already stay", (x, c.ident()), ("value", "value"))
    c.end()


def row_value(ts):
    c = sql.Cursor(ts)
    k = sql.Cursor(c.group())
    v = k.string()
    k.end()
    c.end()
    return v


def word(c):
    t = c.next()
    if t[0] != "w":
        raise sql.SpecError(f"expected an alias, got {t!r}")
    return t[1]


MIGRATED = {"postgresql": [SqlEnumType, SqlVariableCharacterType, SqlUserDefinedType],
            "mysql": [SqlEnumType, SqlVariableCharacterType]}


def declare_rest(d):
    name = "base" if d is BASE else d.name
    for where in ("both", "dropped", "added"):
        def constraints(g, where=where):
            constraints_contract(g, d, where)
        contract("P05", f"{name}_constraints_{where}", FUNCS, covers=("refused",) if where == "both" else ("changed",),
                 paths=200000, seconds=600, weight=4)(constraints)
        if where != "both" and d in (BASE, POSTGRESQL, MYSQL):
            contract("P05", f"{name}_constraints_{where}_columns", FUNCS, covers=("changed",), paths=200000, seconds=600,
                     weight=4)(lambda g, where=where: constraints_contract(g, d, where, True))
    contract("P05", f"{name}_identical", FUNCS + ([OWN[name]] if name in OWN else []), covers=("identical",),
             seconds=600)(lambda g: identical_contract(g, d))
    if d.migrates:
        contract("P05", f"{name}_migration", [OWN[name].rsplit(".", 1)[0] + ".migrate_column_stmt"],
                 covers=("migrated",))(lambda g: migrate_contract(g, d))


for _d in (BASE, POSTGRESQL, MYSQL, MSSQL, ORACLE):
    declare_rest(_d)
contract("P05", "mssql_refusal", FUNCS, covers=("refused",), seconds=600)(refusal_contract)


@finding("P05")
def data_not_carried_over():
    "Recorded defect: dialects without migrate_column_stmt drop the old column without filling the new one."
    from pysqlsync.model.id_types import QualifiedId

    bad = []
    for d in (BASE, MSSQL, ORACLE):
        qid = QualifiedId("ns", "t")
        old = d.column(LocalId("c"), SqlVariableCharacterType(), False)
        new = d.column(LocalId("c"), SqlIntegerType(4), False)
        key = d.column(LocalId("id"), SqlIntegerType(8), False)
        fk = ot.ForeignConstraint(LocalId("fk_c"), (LocalId("c"),),
                                  ot.ConstraintReference(QualifiedId("ns", "v"), (LocalId("id"),)))
        a = d.table(qid, [key, old], primary_key=(LocalId("id"),))
        b = d.table(qid, [key, new], primary_key=(LocalId("id"),), constraints=[fk])
        ops = sql.script(d.mutator().mutate_table_stmt(a, b), d.name)
        kinds = [x[0] for x in ops]
        acts = [y[0] for x in ops if x[0] == "altertable" for y in x[2]]
        if "drop" in acts and "update" not in kinds:
            bad.append(d.name)
    return f"text column turned into a key is dropped without carrying its data over: {', '.join(bad)}" if bad else None
