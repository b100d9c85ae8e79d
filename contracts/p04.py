"""P04: column changes emitted turn the old column into the new one."""
from pysqlsync.formation import mutation, object_types as ot
from pysqlsync.dialect.mssql import mutation as ms_mut, object_types as ms_ot
from pysqlsync.dialect.mysql import mutation as my_mut, object_types as my_ot
from pysqlsync.dialect.oracle import mutation as ora_mut, object_types as ora_ot
from pysqlsync.dialect.postgresql import mutation as pg_mut

from pyvc.contract import contract
from spec import sql

from .ddl import short_comment
from .common import column, default_tokens, type_tokens, use_quoting_contracts


def pair(g, cls):
    use_quoting_contracts(g)
    name = g.name_text("n")
    s = column(g, "s", name, cls)
    if g.flag("same definition"):
        t = g.new(cls, s.name, s.data_type, s.nullable, s.default, s.identity, s.description)
    else:
        t = column(g, "t", name, cls)
    return name, s, t


def standard(g, mut, cls):
    name, s, t = pair(g, cls)
    r = g.outcome(g.new(mut), "mutate_column_stmt", s, t)
    g.ensure("an alteration is not refused", not r.raised, r)
    if r.raised:
        return
    text = g.force(r.value)
    if g.truth(g.eq(s, t)):
        g.cover("equal definitions")
        g.ensure("equal definitions emit nothing", text is None, text)
        return
    g.cover("different definitions")
    acts = [] if text is None else sql.actions(sql.lex(text), "ansi")
    seen = set()
    for a in acts:
        if a[0] != "alter":
            g.fail("only alterations of the column are emitted", a)
            return
        g.ensure_eq("the alteration names the column", a[1], name)
        g.ensure("each attribute is altered at most once", a[2] not in seen, a)
        seen.add(a[2])
    val = {a[2]: a[3] for a in acts}
    # data type
    same = g.eq(s.data_type, t.data_type)
    if "type" in val:
        g.ensure("an unchanged data type is not touched", g.Not(same))
        g.ensure_eq("the data type ends as in the new definition", val["type"], type_tokens(g, t.data_type))
    else:
        g.ensure("the data type ends as in the new definition", same)
    # nullability
    same = g.eq(s.nullable, t.nullable)
    if "nullable" in val:
        g.ensure("unchanged nullability is not touched", g.Not(same))
        g.ensure_eq("nullability ends as in the new definition", val["nullable"], t.nullable)
    else:
        g.ensure("nullability ends as in the new definition", same)
    # default
    same = g.eq(s.default, t.default)
    if "default" in val:
        g.ensure("an unchanged default is not touched", g.Not(same))
        new = default_tokens(g, t.default)
        g.ensure_eq("the default ends as in the new definition", val["default"], new)
    else:
        g.ensure("the default ends as in the new definition", same)
    # identity
    same = g.eq(s.identity, t.identity)
    if "identity" in val:
        g.ensure("an unchanged identity is not touched", g.Not(same))
        g.ensure_eq("identity ends as in the new definition", val["identity"], t.identity)
    else:
        g.ensure("identity ends as in the new definition", same)


@contract("P04", functions=["pysqlsync.formation.mutation.Mutator.mutate_column_stmt"])
def base(g):
    standard(g, mutation.Mutator, ot.Column)


@contract("P04", functions=["pysqlsync.dialect.postgresql.mutation.PostgreSQLMutator.mutate_column_stmt"])
def postgresql(g):
    standard(g, pg_mut.PostgreSQLMutator, ot.Column)


def length(g, t):
    return g.e.call(len, [t], {}) if g.symbolic else len(t)


@contract("P04", functions=["pysqlsync.dialect.mysql.mutation.MySQLMutator.mutate_column_stmt",
                            "pysqlsync.dialect.mysql.object_types.MySQLColumn.data_spec",
                            "pysqlsync.dialect.mysql.object_types.MySQLColumn.comment"],
          covers=["equal definitions", "redefined", "refused"], weight=5)
def mysql(g):
    from pysqlsync.model.data_types import SqlEnumType

    name, s, t = pair(g, my_ot.MySQLColumn)
    cs, ct = short_comment(g, s), short_comment(g, t)
    r = g.outcome(g.new(my_mut.MySQLMutator), "mutate_column_stmt", s, t)
    toolong = g.Or(*[g.gt(length(g, c), 1024) for c in (cs, ct) if c is not None], False)
    if r.raised:
        g.cover("refused")
        g.ensure("only a comment that cannot be stored is refused", toolong, r)
        g.ensure("refused with the documented error", g.isinstance(r.value, ot.FormationError), r)
        return
    text = g.force(r.value)
    attrs = [g.eq(s.data_type, t.data_type), g.eq(s.nullable, t.nullable), g.eq(s.default, t.default),
             g.eq(s.identity, t.identity), g.eq(cs, ct)]
    if text is None:
        g.cover("equal definitions")
        g.ensure("nothing emitted only if nothing differs", g.And(*attrs))
        return
    g.cover("redefined")
    g.ensure("an alteration is emitted only if something differs", g.Not(g.And(*attrs)))
    acts = sql.actions(sql.lex(text, True), "mysql")
    if len(acts) != 1 or acts[0][0] != "redefine":
        g.fail("one redefinition of the column", acts)
        return
    _, n, spec = acts[0]
    g.ensure_eq("the alteration names the column", n, name)
    check_mysql_spec(g, spec, t, ct)


def check_mysql_spec(g, spec, t, ct):
    from pysqlsync.model.data_types import SqlEnumType

    enum = g.isinstance(t.data_type, SqlEnumType)
    g.ensure_eq("the data type ends as in the new definition", spec["type"], type_tokens(g, t.data_type))
    g.ensure_eq("nullability ends as in the new definition", spec["notnull"] is None, t.nullable)
    g.ensure_eq("the default ends as in the new definition", spec["default"], default_tokens(g, t.default))
    g.ensure_eq("identity ends as in the new definition", spec["identity"] is not None, t.identity)
    g.ensure_eq("the comment ends as in the new definition", spec["comment"], ct)
    g.ensure_eq("enumeration columns keep their character set", spec["charset"] is not None, enum)


@contract("P04", functions=["pysqlsync.dialect.mssql.mutation.MSSQLMutator.mutate_column_stmt"],
          covers=["refused", "nothing emitted", "redefined"])
def mssql(g):
    name, s, t = pair(g, ms_ot.MSSQLColumn)
    r = g.outcome(g.new(ms_mut.MSSQLMutator), "mutate_column_stmt", s, t)
    same = g.And(g.eq(s.data_type, t.data_type), g.eq(s.nullable, t.nullable))
    if r.raised:
        g.cover("refused")
        g.ensure("only an identity change is refused", g.Not(g.eq(s.identity, t.identity)), r)
        g.ensure("refused with the documented error", g.isinstance(r.value, ot.ColumnFormationError), r)
        return
    g.ensure_eq("an identity change is refused", s.identity, t.identity)
    text = g.force(r.value)
    if text is None:
        g.cover("nothing emitted")
        g.ensure("nothing emitted only if nothing differs", same)
        return
    g.cover("redefined")
    g.ensure("an alteration is emitted only if something differs", g.Not(same))
    acts = sql.actions(sql.lex(text), "mssql")
    if len(acts) != 1 or acts[0][0] != "redefine":
        g.fail("one redefinition of the column", acts)
        return
    _, n, spec = acts[0]
    g.ensure_eq("the alteration names the column", n, name)
    g.ensure_eq("the data type ends as in the new definition", spec["type"], type_tokens(g, t.data_type))
    g.ensure_eq("nullability ends as in the new definition", spec["notnull"] is None, t.nullable)
    g.ensure("nothing else is redefined", all(spec[k] is None for k in spec if k not in ("type", "notnull")), spec)


@contract("P04", functions=["pysqlsync.dialect.oracle.mutation.OracleMutator.mutate_column_stmt",
                            "pysqlsync.dialect.oracle.object_types.OracleColumn.default_expr"],
          covers=["nothing emitted", "modified"])
def oracle(g):
    name, s, t = pair(g, ora_ot.OracleColumn)
    r = g.outcome(g.new(ora_mut.OracleMutator), "mutate_column_stmt", s, t)
    g.ensure("an alteration is not refused", not r.raised, r)
    if r.raised:
        return
    text = g.force(r.value)
    ty, nu, de, idn = (g.eq(s.data_type, t.data_type), g.eq(s.nullable, t.nullable), g.eq(s.default, t.default),
                       g.eq(s.identity, t.identity))
    if text is None:
        g.cover("nothing emitted")
        g.ensure("nothing emitted only if nothing differs", g.And(ty, nu, de, idn))
        return
    g.cover("modified")
    acts = sql.actions(sql.lex(text), "oracle")
    if len(acts) != 1 or acts[0][0] != "modify":
        g.fail("one modification of the column", acts)
        return
    _, n, spec = acts[0]
    g.ensure_eq("the alteration names the column", n, name)

    def attr(what, same, got, present, expected):
        if present:
            g.ensure(f"an unchanged {what} is not touched", g.Not(same), spec)
            g.ensure_eq(f"{what} ends as in the new definition", got, expected)
        else:
            g.ensure(f"{what} ends as in the new definition", same, spec)

    attr("data type", ty, spec["type"], spec["type"] is not None, type_tokens(g, t.data_type))
    attr("nullability", nu, spec["notnull"] is False, spec["notnull"] is not None, t.nullable)
    attr("identity", idn, spec["identity"], spec["identity"] is not None, t.identity)
    attr("default", de, oracle_default(g, spec["default"], t), spec["default"] is not None,
         default_tokens(g, t.default) or NULL)


NULL = (("w", "NULL"),)


def oracle_default(g, tokens, t):
    "A timestamp literal denotes the same as its text in a default of a timestamp column."
    from pysqlsync.model.data_types import SqlTimestampType

    if tokens and sql.is_w(tokens[0], "TIMESTAMP") and g.truth(g.isinstance(t.data_type, SqlTimestampType)):
        return tokens[1:]
    return tokens
