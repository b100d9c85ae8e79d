"""P01 Identifiers survive quoting unchanged and cannot alter the statement."""
from __future__ import annotations

from pysqlsync.dialect.mysql import connection as mysql
from pysqlsync.model import id_types as it
from pysqlsync.model.id_types import GlobalId, LocalId, PrefixedId, QualifiedId

from pyvc.contract import contract
from pyvc.values import rope
from spec import chars

I = "pysqlsync/model/id_types.py::"
READERS = [("standard", chars.STANDARD), ("MySQL", chars.MYSQL), ("Snowflake", chars.SNOWFLAKE), ("Delta", chars.DELTA)]


def named(g, cls, p, scoped=None):
    n = g.text(f"{p}.id")
    if cls is LocalId:
        return g.new(LocalId, n)
    scoped = g.flag(f"{p} scoped") if scoped is None else scoped
    return g.new(cls, g.text(f"{p}.namespace") if scoped else None, n)


def text_of(g, o):
    "What is written into a statement for the name."
    return g.method(o, "__str__")


def wanted(cls, o):
    "What the database is to read."
    if cls is LocalId or o.namespace is None:
        return [("id", o.id)]
    if cls is PrefixedId:
        return [("id", rope(o.namespace, "__", o.id))]
    return [("id", o.namespace), ("text", "."), ("id", o.id)]


def quoted(g, cls):
    o = named(g, cls, "n")
    s = text_of(g, o)
    g.ensure_eq("both ways to write a name agree", g.attr(o, "quoted_id"), s)
    name, reader = g.choice("reader", READERS)
    r = chars.tokens(g, reader, s, f"{name} identifier")
    if r is not None:
        g.ensure_eq("the database reads back the name", r, wanted(cls, o))
        g.cover("read")


def in_statement(g, cls):
    "Amid other text, the name takes nothing of it, and leaves nothing of itself behind."
    o = named(g, cls, "n")
    s = rope("DROP TABLE ", text_of(g, o), ' ("a", \'b\');')
    name, reader = g.choice("reader", READERS)
    r = chars.tokens(g, reader, s, f"{name} statement")
    if r is not None:
        want = [("text", "DROP TABLE "), *wanted(cls, o), ("text", " ("), ("id", "a"), ("text", ", "), ("str", "b"), ("text", ");")]
        g.ensure_eq("the statement around the name is unchanged", r, want)
        g.cover("read")


def local(g, cls):
    "Parts of a name."
    o = named(g, cls, "n")
    new = g.text("new")
    ns = None if cls is LocalId else o.namespace
    merged = o.id if cls in (LocalId, QualifiedId) or ns is None else rope(ns, "__", o.id)
    g.ensure_eq("the local part", g.attr(o, "local_id"), merged)
    if cls is LocalId:
        g.cover("parts")
        return
    g.ensure_eq("the schema", g.attr(o, "scope_id"), ns if cls is QualifiedId else None)
    g.ensure_eq("the name in messages", g.attr(o, "compact_id"), rope(ns, ".", o.id) if cls is QualifiedId and ns is not None else merged)
    r = g.method(o, "rename", new)
    g.ensure("renaming keeps the kind of name", g.isinstance(r, cls), r)
    g.ensure_eq("renaming changes the local part only", (r.namespace, r.id), (ns, new))
    g.ensure_eq("the object renamed is unchanged", (o.namespace, o.id), (ns, o.id))
    g.cover("parts")


def distinct(g, cls):
    "Equal texts are of equal names: follows from reading them back."
    a, b = named(g, cls, "a"), named(g, cls, "b")
    x, y = text_of(g, a), text_of(g, b)
    if g.symbolic:
        # the reader is a function of the text
        p, q = chars.tokens(g, chars.STANDARD, x), chars.tokens(g, chars.STANDARD, y)
        if p is None or q is None:
            return
        same = g.eq(p, q)
    else:
        same = x == y
    if cls is PrefixedId:
        alike = g.eq(g.attr(a, "local_id"), g.attr(b, "local_id"))
    else:
        alike = g.eq(g.list_of(*fields(cls, a)), g.list_of(*fields(cls, b)))
    g.ensure("distinct names are written differently", g.Implies(same, alike), (x, y))
    g.cover("compared")


def fields(cls, o):
    return [o.id] if cls is LocalId else [*([] if o.namespace is None else [o.namespace]), o.id]


for _c in (LocalId, QualifiedId, PrefixedId):
    _n = _c.__name__
    contract("P01", f"quoted_{_n}", [I + f"{_n}.quoted_id", I + f"{_n}.__str__", I + "quote_id"], covers=("read",), samples=600)(lambda g, c=_c: quoted(g, c))
    contract("P01", f"statement_{_n}", [I + f"{_n}.__str__"], covers=("read",))(lambda g, c=_c: in_statement(g, c))
    contract("P01", f"parts_{_n}", [I + f"{_n}.{m}" for m in ("local_id", "scope_id", "compact_id", "rename")], covers=("parts",))(lambda g, c=_c: local(g, c))
    contract("P01", f"distinct_{_n}", [I + f"{_n}.__str__"], covers=("compared",))(lambda g, c=_c: distinct(g, c))


@contract("P01", "equality", [I + "LocalId", I + "QualifiedId", I + "PrefixedId"], covers=("compared",))
def equality(g):
    "Names are equal, and the same key of a dictionary, exactly if their parts are."
    cls = g.choice("kind", [LocalId, QualifiedId, PrefixedId])
    a, b = named(g, cls, "a"), named(g, cls, "b")
    alike = g.eq(g.list_of(*fields(cls, a)), g.list_of(*fields(cls, b))) if len(fields(cls, a)) == len(fields(cls, b)) else False
    g.ensure("equal exactly if the parts are", g.eq(g.eq(a, b), alike), (a, b))
    g.cover("compared")


@contract("P01", "mysql_backticks", ["pysqlsync/dialect/mysql/connection.py::quoted_id"], covers=("read",), samples=600)
def mysql_backticks(g):
    n = g.text("name")
    s = g.call(mysql.quoted_id, n)
    r = chars.tokens(g, chars.MYSQL, rope("DROP TABLE IF EXISTS ", s, ", ", s, ";"), "MySQL statement")
    if r is not None:
        g.ensure_eq("the database reads back the name", r,
                    [("text", "DROP TABLE IF EXISTS "), ("id", n), ("text", ", "), ("id", n), ("text", ";")])
        g.cover("read")


@contract("P01", "global_names", [I + "GlobalId"], covers=("parts",))
def global_names(g):
    "Names of built-in types are written as they are."
    n, new = g.text("name"), g.text("new")
    o = g.new(GlobalId, n)
    g.ensure_eq("written as it is", (text_of(g, o), g.attr(o, "quoted_id"), g.attr(o, "local_id"), g.attr(o, "compact_id"), g.attr(o, "scope_id")),
                (n, n, n, n, None))
    r = g.method(o, "rename", new)
    g.ensure("renaming keeps the kind of name", g.isinstance(r, GlobalId), r)
    g.ensure_eq("renaming changes the name", r.id, new)
    g.cover("parts")
