"""Vocabulary shared by the contracts: arbitrary columns, tables, names; contracts of the quoting functions."""
from __future__ import annotations

import re

import z3

from pysqlsync.formation import object_types as ot
from pysqlsync.model import data_types as dt
from pysqlsync.model import id_types as it
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from pyvc.values import Atom, Obj, Opaque, SBool, SOpt, SStr, Text, rope
from spec import sql


# ---------------------------------------------------------------------- contracts of the quoting functions (P01, P02)
def lit_atom(e, s):
    s = e.force(s)
    t = e.term(s)
    x = e.fn("lit", Text, Text)(t)
    e.fact(e.fn("unlit", Text, Text)(x) == t)
    return SStr([Atom(x, "lit", s)])


def use_quoting_contracts(g):
    if not g.symbolic:
        return

    def local(e, obj):
        return e.ident(e.getattr(obj, "local_id"))

    def qualified(e, obj):
        ns = e.force(obj.__dict__["namespace"])
        if ns is None:
            return e.ident(e.getattr(obj, "local_id"))
        return rope(e.ident(ns), ".", e.ident(e.getattr(obj, "local_id")))

    g.override(it.LocalId.__dict__["quoted_id"].fget, local)
    g.override(it.QualifiedId.__dict__["quoted_id"].fget, qualified)
    g.override(it.PrefixedId.__dict__["quoted_id"].fget, local)
    for m in quoting_modules():
        for name in ("quote", "sql_quoted_string"):
            f = getattr(m, name, None)
            if f is not None:
                g.override(f, lit_atom)


def quoting_modules():
    import importlib

    out = [dt]
    for d in ("postgresql", "delta", "snowflake", "mysql"):
        out.append(importlib.import_module(f"pysqlsync.dialect.{d}.object_types"))
    return out


# ---------------------------------------------------------------------- arbitrary database objects
TYPE_CANDS = None


def cands():
    global TYPE_CANDS
    if TYPE_CANDS is None:
        TYPE_CANDS = [dt.SqlIntegerType, dt.SqlVariableCharacterType, dt.SqlEnumType, dt.SqlUserDefinedType,
                      dt.SqlTimestampType, dt.SqlUuidType]
    return TYPE_CANDS


def exactly_one(e, preds):
    e.fact(z3.Or(*preds))
    for i, p in enumerate(preds):
        for q in preds[:i]:
            e.fact(z3.Not(z3.And(p, q)))


def sql_type(g, name, classes=None):
    classes = classes or cands()
    if not g.symbolic:
        return g.sql_type(name, classes)
    o = Opaque(z3.Const(name, Obj), dt.SqlDataType)
    o.attrs["$cands"] = list(classes)
    e = g.e
    preds = [e.fn(f"is:{k.__qualname__}", Obj, z3.BoolSort())(o.e) for k in classes]
    exactly_one(e, preds)
    o.attrs["$str"] = SStr([Atom(e.fn("str_of_obj", Obj, Text)(o.e), "type", None)])
    return o


def column(g, p, name=None, cls=ot.Column, types=None, description=True):
    return g.new(
        cls,
        g.new(LocalId, name if name is not None else g.name_text(f"{p}.name")),
        sql_type(g, f"{p}.type", types),
        g.bool(f"{p}.nullable"),
        g.opt(f"{p}.default", g.expr(f"{p}.default")),
        g.bool(f"{p}.identity"),
        g.opt(f"{p}.description", g.text(f"{p}.description")) if description else None,
    )


def key_of(obj):
    return obj.name.id


def qualified(g, p, kinds=("qualified", "prefixed")):
    kind = g.choice(f"{p}.kind", list(kinds))
    cls = QualifiedId if kind == "qualified" else PrefixedId
    ns = g.opt(f"{p}.ns", g.name_text(f"{p}.ns"))
    return g.new(cls, ns, g.name_text(f"{p}.id"))


def qname_of(g, qid):
    "How the reader of SQL sees the name of a table."
    if isinstance(qid, QualifiedId):
        return (g.force(qid.namespace), qid.id)
    return (None, g.attr(qid, "local_id"))


# ---------------------------------------------------------------------- reading definitions
def lexed(g, text):
    return tuple(sql.lex(text))


def type_tokens(g, t):
    if g.symbolic:
        return tuple(sql.lex(g.e.text(t)))
    return tuple(sql.lex(str(t)))


def default_tokens(g, d):
    "None, or the tokens of the default expression (decides whether there is one)."
    d = g.force(d)
    return None if d is None else tuple(sql.lex(d))
