"""P17 Dialect registry and connection strings resolve exactly what was given."""
from __future__ import annotations

import re
import asyncio
import importlib
import urllib.parse

import aiomysql
import aiotrino
import asyncpg
import oracledb
import pyodbc
import redshift_connector

import pysqlsync.base as pb
import pysqlsync.connection as pc
import pysqlsync.dialect.mssql.connection as ms
import pysqlsync.dialect.mysql.connection as my
import pysqlsync.dialect.oracle.connection as oc
import pysqlsync.dialect.postgresql.connection as ps
import pysqlsync.dialect.redshift.connection as rs
import pysqlsync.dialect.trino.connection as tr
import pysqlsync.factory as pf
from pysqlsync.model.id_types import LocalId

from contracts.common import key_of
from contracts.effects import threads
from pyvc.contract import contract
from spec import chars

F = "pysqlsync/factory.py::"
Mode = pc.ConnectionSSLMode


# ---------------------------------------------------------------------- registry
class Engine:
    "An engine, identified by a name."

    def __init__(self, name):
        self.name = name


def entries(xs):
    return {x.name.id: x for x in xs}


def resolves(g, name, wanted):
    "Looking up the name yields the engine, or is refused."
    r = g.outcome(pf.get_dialect, None, name)
    if wanted is None:
        g.ensure("an unknown name is reported", r.raised and isinstance(r.value, ValueError), r)
    else:
        g.ensure("the name resolves to the engine registered", not r.raised and r.value is wanted, r)


def registry(g, op):
    "One operation on any registry; whatever another name resolved to before, it still does."
    name, other = g.name_text("name"), g.name_text("other")
    if g.symbolic:
        known = g.flag("known")
        old = g.new(Engine, g.new(LocalId, name)) if known else None
        xs = g.around("d", lambda p: g.new(Engine, g.new(LocalId, g.name_text(f"{p}.name"))), key_of, name, old)
        g.global_value(pf, "_engines", g.call(entries, xs))
        same = g.truth(g.eq(name, other))
        if same:
            before = old
        elif g.truth(g.has_key(xs, other)):
            before = g.at_key(xs, other)
        else:
            before = None
    else:
        # a history of the public operations
        model = {}
        g.global_value(pf, "_engines", {})
        for i in range(g.rng.randint(0, 6)):
            n = g.choice("step", [name, other, "x", "y"])
            if g.choice("operation", ["register", "remove"]) == "register":
                e = Engine(LocalId(n))
                if n not in model:
                    pf.register_dialect(n, e)
                    model[n] = e
            elif n in model:
                pf.unregister_dialect(n)
                del model[n]
        old, same = model.get(name), name == other
        before = model.get(other)
        known = old is not None
    new = old if op == "register" and known and g.truth(g.flag("again")) else g.new(Engine, g.new(LocalId, name))
    if op == "get":
        resolves(g, name, old)
        g.cover("known" if known else "unknown")
        return
    if op == "register":
        r = g.outcome(pf.register_dialect, None, name, new)
        if known:
            g.ensure("registering a name twice is refused", r.raised and isinstance(r.value, ValueError), r)
        else:
            g.ensure("registered", not r.raised, r)
        after = old if known else new
    else:
        r = g.outcome(pf.unregister_dialect, None, name)
        g.ensure("removing an unknown name is reported, and only that", g.eq(r.raised, not known), r)
        after = None
    resolves(g, name, after)
    resolves(g, other, after if same else before)
    g.cover("known" if known else "unknown")


for _o, _f in (("register", "register_dialect"), ("remove", "unregister_dialect"), ("get", "get_dialect")):
    contract("P17", f"registry_{_o}", [F + _f], covers=("known", "unknown"))(lambda g, o=_o: registry(g, o))


@contract("P17", "missing_driver", [F + "UnavailableEngine"], covers=("reported",))
def missing_driver(g):
    name, module = g.name_text("name"), g.name_text("module")
    e = g.new(pf.UnavailableEngine, name, module)
    g.ensure_eq("the name of the dialect", g.attr(e, "name"), name)
    for m, args in (("get_generator_type", ()), ("get_connection_type", ()), ("get_explorer_type", ()),
                    ("create_connection", (None, None)), ("create_generator", (None,)), ("create_explorer", (None,))):
        r = g.outcome(e, m, *args)
        g.ensure("using it is refused", r.raised and isinstance(r.value, RuntimeError), r)
        if r.raised and r.value.args:
            g.ensure("the message names the missing dependency", g.truth(g.call(within, module, r.value.args[0])), r)
        g.cover("reported")


class Found:
    "An entry of a directory."

    def __init__(self, name, directory):
        self.name = name
        self.directory = directory

    def is_dir(self):
        return self.directory


class Folder:
    def __init__(self, items):
        self.items = items

    def joinpath(self, *names):
        assert names == ("dialect",)
        return self

    def iterdir(self):
        return iter(self.items)


@contract("P17", "discover", [F + "discover_dialects"], bounded="module loading is native: random sets of missing drivers", covers=("available", "unavailable"))
def discover(g):
    "Every bundled dialect is registered, with its engine if its driver is there."
    if g.symbolic:
        g.unsupported("module loading")
    bundled = ["delta", "mssql", "mysql", "oracle", "postgresql", "redshift", "snowflake", "trino"]
    engines = {n: importlib.import_module(f"pysqlsync.dialect.{n}.engine") for n in bundled}
    missing = {n: g.choice("driver", ["aiodriver", "driver.sub", "x_y"]) for n in bundled if g.bool("missing")}
    load = importlib.import_module

    def imported(name, package=None):
        for n, m in missing.items():
            if name.endswith(f"dialect.{n}.dependency"):
                raise ModuleNotFoundError(f"No module named {m!r}", name=m)
        return load(name, package=package)

    g.stub(importlib, "import_module", imported)
    g.global_value(pf, "_engines", {})
    pf.discover_dialects()
    for n in bundled:
        r = g.outcome(pf.get_dialect, None, n)
        g.ensure("a bundled dialect resolves", not r.raised and r.value.name == n, (n, r))
        if r.raised:
            continue
        e = r.value
        if n in missing:
            r = g.outcome(e, "get_connection_type")
            g.ensure("the missing dependency is named", r.raised and missing[n] in str(r.value), (n, r))
            g.cover("unavailable")
        else:
            g.ensure("the engine of the dialect", type(e).__module__ == engines[n].__name__, (n, e))
            t = e.get_generator_type()
            g.ensure("the generator of the dialect", t.__module__ == f"pysqlsync.dialect.{n}.generator", (n, t))
            g.cover("available")


# ---------------------------------------------------------------------- connection strings
class Parts:
    "The components of a URL."

    def __init__(self, scheme, hostname, port, username, password, path, query):
        self.scheme = scheme
        self.hostname = hostname
        self.port = port
        self.username = username
        self.password = password
        self.path = path
        self.query = query


def quoting(g):
    "The contract of percent-encoding: it can be decoded, and what is encoded is never empty unless the text is."
    if not g.symbolic:
        return
    from pyvc.values import Atom, SStr, Text

    e = g.e

    def encode(e, s, safe="/", *a):
        s = e.force(s)
        t = e.term(s)
        x = e.fn("pct", Text, Text)(t)
        e.fact(e.fn("unpct", Text, Text)(x) == t)
        e.fact((x == e.lit("")) == (t == e.lit("")))
        return SStr([Atom(x, "pct", s)])

    def decode(e, s, *a):
        s = e.force(s)
        ps = s.pieces if isinstance(s, SStr) else [s]
        if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == "pct":
            return ps[0].arg
        if isinstance(s, str):
            return urllib.parse.unquote(s)
        return e.text_fn("unpct", s)

    g.override(urllib.parse.quote, encode)
    g.override(urllib.parse.unquote, decode)


QUERIES = {"": None, **{f"ssl={m.value}": m for m in Mode}, "timeout=5": None, "a=1&ssl=require": Mode.require,
           "ssl=require&ssl=require": ValueError, "ssl=disable&ssl=require": ValueError, "ssl=": ValueError, "ssl=verify_ca": ValueError,
           "ssl=REQUIRE": ValueError, "ssl=off": ValueError, "ssl=true": ValueError, "ssl=verify%2Dfull": Mode.verify_full}


@contract("P17", "get_parameters", [F + "get_parameters"], covers=("no mode", "mode", "refused", "credentials", "database"))
def get_parameters(g):
    quoting(g)
    quote = urllib.parse.quote
    part = lambda n: g.text(n) if g.truth(g.flag(n)) else None
    user, password, database = part("user"), None, part("database")
    if user is not None:
        password = part("password")
    for x in (user, password, database):
        if x is not None:
            g.assume(g.Not(g.eq(x, "")))
    query = g.choice("query", list(QUERIES))
    scheme = g.choice("scheme", ["postgresql", "mysql", "x"])
    host = g.choice("host", ["db.example.com", "127.0.0.1", None]) if user is None else "db.example.com"
    port = g.choice("port", [None, 5432, 1]) if host else None
    enc = lambda x: None if x is None else g.call(quote, x, safe="")
    if g.symbolic:
        # the assumed contract of urlparse: it splits the URL into its components
        path = g.call(lambda d: "/" + d, enc(database)) if database is not None else ""
        parts = g.new(Parts, scheme, host, port, enc(user), enc(password), path, query)
        url = g.opaque("url")
        g.override(urllib.parse.urlparse, lambda e, u, *a, **k: parts)
        g.override(urllib.parse.urlsplit, lambda e, u, *a, **k: parts)
    else:
        # what may be left as it is, is encoded or not
        safe = g.choice("characters left as they are", ["", "!$&'()*+,;="])
        slash = g.choice("slashes left as they are", ["", "/"]) if database is not None and not database.startswith("/") else ""
        auth = "" if user is None else quote(user, safe=safe) + ("" if password is None else ":" + quote(password, safe=safe)) + "@"
        url = f"{scheme}://{auth}{host or ''}{'' if port is None else f':{port}'}{'' if database is None else '/' + quote(database, safe=safe + slash)}"
        if query:
            url += "?" + query
    r = g.outcome(pf.get_parameters, None, url)
    mode = QUERIES[query]
    if mode is ValueError:
        g.ensure("an unknown or repeated TLS mode is refused", r.raised and isinstance(r.value, ValueError), r)
        g.cover("refused")
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    dialect, p = g.items(r.value)
    g.ensure("the dialect", dialect == scheme, dialect)
    g.ensure("the TLS mode", p.ssl is mode, p.ssl)
    g.ensure("the host", g.eq(p.host, host), p.host)
    g.ensure("the port", g.eq(p.port, port), p.port)
    g.ensure("the user name, decoded", g.eq(p.username, user), p.username)
    g.ensure("the password, decoded", g.eq(p.password, password), p.password)
    g.ensure("the database, decoded", g.eq(p.database, database), p.database)
    g.cover("no mode" if mode is None else "mode")
    if password is not None:
        g.cover("credentials")
    if database is not None:
        g.cover("database")


@contract("P17", "show_parameters", ["pysqlsync/connection.py::ConnectionParameters.__str__"],
          covers=("shown",))
def show_parameters(g):
    "What is shown of the parameters can be read again, and is encoded; the password is not shown."
    quoting(g)
    part = lambda n: g.text(n) if g.truth(g.flag(n)) else None
    user, password, database = part("user"), part("password"), part("database")
    host = g.choice("host", ["db.example.com", None])
    port = g.choice("port", [None, 5432])
    mode = g.choice("mode", [None, *Mode])
    for x in (user, password, database):
        if x is not None:
            g.assume(g.Not(g.eq(x, "")))
    p = g.new(pc.ConnectionParameters, host, port, user, password, database, mode)
    s = g.call(str, p)
    enc = lambda x: g.call(urllib.parse.quote, x, safe="")
    parts = []
    if user is not None:
        parts += [enc(user), "@"]
    parts.append(host or "localhost")
    if port:
        parts.append(f":{port}")
    if database is not None:
        parts += ["/", enc(database)]
    if mode is not None:
        parts.append(f"?ssl={mode.value}")
    g.ensure("the parts of the connection string", g.eq(s, g.call(joined, parts)), s)
    if not g.symbolic:
        _, q = pf.get_parameters("x://" + s)
        g.ensure("it reads back", (q.host, q.port, q.username, q.password, q.database, q.ssl)
                 == (host or "localhost", port, user, None, database, mode), q)
    g.cover("shown")


# ---------------------------------------------------------------------- signing in
class Session:
    "A connection of a driver, whatever it is."

    autocommit = False

    def cursor(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def execute(self, statement):
        return self

    def fetchall(self):
        return []

    def get_server_version(self):
        return Version()


class Version:
    major = 16
    minor = 1
    micro = 0
    releaselevel = "final"


class Login:
    "A driver that records what it is told."

    def __init__(self):
        self.args = []
        self.told = []
        self.session = Session()

    def connect(self, *args, **kwargs):
        self.args.append(args)
        self.told.append(kwargs)
        return self.session

    async def connect_later(self, *args, **kwargs):
        return self.connect(*args, **kwargs)


class Basic:
    "Authentication with a password."

    def __init__(self, user, password):
        self.user = user
        self.password = password


SIGN_IN = {
    "postgresql": (ps.PostgreSQLConnection, asyncpg, True, {"host": "host", "port": "port", "user": "username", "password": "password", "database": "database"}),
    "mysql": (my.MySQLConnection, aiomysql, True, {"host": "host", "port": "port", "user": "username", "password": "password", "db": "database"}),
    "redshift": (rs.RedshiftConnection, redshift_connector, False, {"host": "host", "port": "port", "db_user": "username", "database": "database"}),
    "trino": (tr.TrinoConnection, aiotrino.dbapi, False, {"host": "host", "port": "port", "user": "username", "catalog": "database"}),
    "oracle": (oc.OracleConnection, oracledb, False, {"user": "username", "password": "password"}),
    "mssql": (ms.MSSQLConnection, pyodbc, False, {}),
}


PORTS = {"postgresql": 5432, "mysql": 3306, "redshift": 5439, "trino": 8080}


def sign_in(g, name):
    "The driver is told the host, port, user name, password and database of the parameters; what is not given may get a default."
    cls, owner, later, names = SIGN_IN[name]
    threads(g)
    login = g.new(Login)
    g.stub(owner, "connect", login.connect_later if later else login.connect)
    part = lambda n: g.text(n) if g.truth(g.flag(n)) else None
    user, password, database = part("user"), part("password"), part("database")
    host = g.choice("host", ["db.example.com", "127.0.0.1", None])
    port = g.choice("port", [None, 5432, 1])
    given = {"host": host, "port": port, "username": user, "password": password, "database": database}
    for x in (user, password, database):
        if x is not None:
            g.assume(g.Not(g.eq(x, "")))
    if name == "trino":
        g.stub(aiotrino.auth, "BasicAuthentication", Basic)
    # the TLS modes are those of P13
    params = g.new(pc.ConnectionParameters, host, port, user, password, database, None)
    conn = g.new(cls, None, params)
    r = g.outcome(conn, "open")
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    g.ensure("one connection", len(g.items(login.told)) == 1, None)
    g.ensure("the connection is the one that was established", conn.native is login.session, None)
    g.ensure("the context belongs to the connection", r.value.connection is conn, None)
    args, told = g.items(login.args)[0], g.items(login.told)[0]
    told = dict(told.items()) if not g.symbolic else {k: g.item(told, k) for k in g.items(g.call(list, told))}
    for k, p in names.items():
        if given[p] is not None:
            g.ensure(f"the {p} is the one given", k in told and g.truth(g.eq(told[k], given[p])), (k, told))
        elif p == "port":
            g.ensure("the port is that of the database", told.get(k) in (None, PORTS[name]), (k, told))
        elif p == "host":
            g.ensure("the host is this one", told.get(k) in (None, "", "localhost", "127.0.0.1"), (k, told))
        elif p in ("username", "password"):
            g.ensure(f"no {p} is made up", told.get(k) in (None, ""), (k, told))
    if name in ("mysql", "oracle", "redshift"):
        # the other drivers do without, or commit when a cursor is left (P14)
        g.ensure("each statement is committed", told.get("autocommit") is True or login.session.autocommit is True, told)
    if name == "mysql":
        g.ensure("names are quoted as the standard has it", "ANSI_QUOTES" in told.get("sql_mode", ""), told)
        g.ensure("times are in coordinated universal time", re.fullmatch(
            r"""\s*SET\s+(@@(session\.)?|SESSION\s+)?time_zone\s*=\s*(["'])(\+00:00|UTC)\3\s*;?\s*""", told.get("init_command", ""), re.I) is not None, told)
    if name == "trino":
        a = told["auth"]
        g.ensure("the password of the user", g.And(g.eq(a.user, user), g.eq(a.password, password)), told)
    if name == "oracle":
        dsn = g.call(joined, [host or "localhost", ":", str(port or 1521), "/", database if database is not None else "FREEPDB1"])
        g.ensure("the host, the port and the database", g.eq(told["dsn"], dsn), told)
    if name == "mssql":
        items = g.items(args)
        g.ensure("a connection string", len(items) == 1, args)
        out = chars.tokens(g, chars.Odbc(), items[0], "connection string")
        if out is None:
            return
        found = {out[i][1]: out[i + 1][1] for i in range(0, len(out), 2)}
        g.ensure("no keyword is given twice", len(found) * 2 == len(out), out)
        g.ensure("no keyword but those of the driver", set(found) <= {"DRIVER", "APP", "SERVER", "UID", "PWD", "LongAsMax", "TrustServerCertificate", "DATABASE"}, out)
        for k, v in (("UID", user), ("PWD", password), ("DATABASE", database)):
            g.ensure(f"{k} is the one given", k not in found if v is None else k in found and g.truth(g.eq(found[k], v)), out)
        if host is not None:
            g.ensure("the host and the port", found.get("SERVER") == (host if port is None else f"{host},{port}"), out)
    if name == "redshift":
        g.ensure("a database user needs a role", told.get("iam") is True, told)
    g.cover("credentials" if password is not None else "no password")


for _n, (_c, *_r) in SIGN_IN.items():
    _f = f"pysqlsync/dialect/{_n}/connection.py::{_c.__name__}."
    contract("P17", f"sign_in_{_n}", [_f + "open"] + ([_f + "_open"] if _r[1] else []), covers=("credentials", "no password"))(lambda g, n=_n: sign_in(g, n))


def within(part, text):
    return part in text


def joined(parts):
    return "".join(parts)


# ---------------------------------------------------------------------- the parts of each dialect
PARTS = {d: (d, d, "postgresql" if d == "redshift" else d) for d in ("mssql", "mysql", "oracle", "postgresql", "redshift", "trino")}
PARTS.update({d: (d, None, None) for d in ("delta", "snowflake")})


def base_of(kind):
    return {"generator": pb.BaseGenerator, "connection": pb.BaseConnection, "discovery": pb.Explorer}[kind]


def engine_contract(g, dialect):
    "The engine of a dialect has the name of the dialect, and its generator, connection and explorer."
    M = importlib.import_module(f"pysqlsync.dialect.{dialect}.engine")
    cls = next(v for v in vars(M).values() if isinstance(v, type) and issubclass(v, pb.BaseEngine) and v is not pb.BaseEngine)
    e = g.new(cls)
    g.ensure_eq("its name", g.attr(e, "name"), dialect)
    for kind, part, method in zip(("generator", "connection", "discovery"), PARTS[dialect], ("get_generator_type", "get_connection_type", "get_explorer_type")):
        r = g.outcome(e, method)
        if part is None:
            # there is a generator only
            g.ensure(f"no {kind}", r.raised and isinstance(r.value, NotImplementedError), r)
            continue
        g.ensure(f"there is a {kind}", not r.raised, r)
        if not r.raised:
            t = r.value
            g.ensure(f"the {kind} of the dialect", issubclass(t, base_of(kind)) and t.__module__ == f"pysqlsync.dialect.{part}.{kind}", t)
    g.cover("resolved")


for _d in PARTS:
    contract("P17", f"engine_{_d}", [f"pysqlsync/dialect/{_d}/engine.py::{_d}"], covers=("resolved",), samples=2)(lambda g, d=_d: engine_contract(g, d))


# ---------------------------------------------------------------------- what an engine makes
class Made_:
    "A generator, connection or explorer of a dialect: what it was made of."

    def __init__(self, *of):
        self.of = of


class MadeGenerator(Made_):
    pass


class MadeConnection(Made_):
    pass


class MadeExplorer(Made_):
    pass


class Opened:
    "An open connection."


E_ = "pysqlsync/base.py::BaseEngine."


@contract("P17", "engine", [E_ + "create_connection", E_ + "create_generator", E_ + "create_explorer"], covers=("connection", "generator", "explorer", "default"), samples=60)
def engine(g):
    "An engine makes the connection, the generator and the explorer of its own dialect, with the parameters and options given."
    from pysqlsync.base import BaseEngine, ConnectionParameters, GeneratorOptions

    class Engine(BaseEngine):
        name = "dialect"

        def get_generator_type(self):
            return MadeGenerator

        def get_connection_type(self):
            return MadeConnection

        def get_explorer_type(self):
            return MadeExplorer

    Engine.__abstractmethods__ = frozenset()
    e = g.obj(Engine)
    options = g.new(GeneratorOptions, foreign_constraints=g.bool("foreign")) if g.flag("options") else None
    kind = g.choice("kind", ["connection", "generator", "explorer"])
    if kind == "explorer":
        conn = g.new(Opened)
        r = g.method(e, "create_explorer", conn)
        g.ensure("an explorer of the dialect", type(r) is MadeExplorer, r)
        g.ensure("of the connection", len(r.of) == 1 and r.of[0] is conn, r)
        g.cover("explorer")
        return
    params = g.new(ConnectionParameters, host=g.text("host"))
    if kind == "connection":
        r = g.method(e, "create_connection", params, options)
        g.ensure("a connection of the dialect", type(r) is MadeConnection, r)
        g.ensure("with the parameters", len(r.of) == 2 and r.of[1] is params, r)
        made = r.of[0]
        g.cover("connection")
    else:
        made = g.method(e, "create_generator", options)
        g.cover("generator")
    g.ensure("a generator of the dialect", type(made) is MadeGenerator and len(made.of) == 1, made)
    if options is None:
        g.ensure_eq("with the default options", made.of[0], g.new(GeneratorOptions))
        g.cover("default")
    else:
        g.ensure("with the options", made.of[0] is options, made)


# ---------------------------------------------------------------------- a session
class Recorded(pb.BaseConnection):
    "A connection to a server that may not answer, or may not close."

    def __init__(self, context, failing):
        self.context = context
        self.failing = failing
        self.events = []

    async def open(self):
        self.events.append("open")
        if self.failing == "open":
            raise OSError("no answer")
        return self.context

    async def close(self):
        self.events.append("close")
        if self.failing == "close":
            raise OSError("connection lost")


class Interrupted(BaseException):
    "A program is told to stop."


class Program:
    "A program that uses a connection."

    def __init__(self, connection, failure):
        self.connection = connection
        self.failure = failure
        self.seen = []

    async def run(self):
        try:
            async with self.connection as context:
                self.seen.append(context)
                self.connection.events.append("use")
                if self.failure is not None:
                    raise self.failure
        except BaseException as e:
            return e
        return None


@contract("P17", "session", ["pysqlsync/base.py::BaseConnection.__aenter__", "pysqlsync/base.py::BaseConnection.__aexit__"], covers=("closed", "failed"), samples=60)
def session(g):
    "A connection used in a `with` statement is opened once, and closed once however the block ends; what the block raises is passed on."
    context = g.new(Opened)
    failing = g.choice("failing", [None, "open", "close"])
    failure = g.choice("failure", [None, KeyError("x"), pb.QueryException("SELECT 1"), asyncio.CancelledError(), Interrupted()])
    conn = g.new(Recorded, context, failing)
    program = g.new(Program, conn, failure)
    r = g.method(program, "run")
    events = [e for e in g.items(conn.events)]
    if failing == "open":
        g.ensure("not used, not closed", events == ["open"], events)
        g.ensure("the failure is passed on", isinstance(r, OSError), r)
        return
    g.ensure("opened, used and closed, once", events == ["open", "use", "close"], events)
    seen = g.items(program.seen)
    g.ensure("used with the context that was opened", len(seen) == 1 and seen[0] is context, seen)
    if failing == "close":
        g.ensure("a failure to close is passed on", isinstance(r, OSError), r)
    elif failure is None:
        g.ensure("ends well", r is None, r)
        g.cover("closed")
    else:
        g.ensure("what the block raised is passed on", r is failure, r)
        g.cover("failed")


class Native:
    "A connection of a driver: what it is asked."

    def __init__(self):
        self.events = []

    def close(self):
        self.events.append("close")


class AsyncNative:
    "A connection of an asynchronous driver: what it is asked."

    def __init__(self):
        self.events = []

    async def close(self):
        self.events.append("close")


ASYNC_CLOSE = ("postgresql", "trino")


def close_contract(g, dialect):
    "Closing a connection closes the connection of the driver, once."
    threads(g)
    M = importlib.import_module(f"pysqlsync.dialect.{dialect}.connection")
    cls = next(v for v in vars(M).values() if isinstance(v, type) and issubclass(v, pb.BaseConnection) and v.__module__ == M.__name__)
    native = g.new(AsyncNative if dialect in ASYNC_CLOSE else Native)
    conn = g.obj(cls, native=native)
    r = g.outcome(conn, "close")
    g.ensure("closes", not r.raised, r)
    g.ensure("once", len(g.items(native.events)) == 1, native.events)
    g.cover("closed")


for _d in ("mssql", "mysql", "oracle", "postgresql", "redshift", "trino"):
    contract("P17", f"close_{_d}", [f"pysqlsync/dialect/{_d}/connection.py::close"], covers=("closed",), samples=2)(lambda g, d=_d: close_contract(g, d))


# ---------------------------------------------------------------------- the classes of objects of a dialect
def kinds():
    from pysqlsync.formation import object_types as ot

    return {"column_class": ot.Column, "table_class": ot.Table, "enum_table_class": ot.EnumTable, "struct_class": ot.StructType, "namespace_class": ot.Namespace}


def factory_contract(g, dialect):
    "Objects of a dialect are of the classes that the dialect declares, and of the common classes where it declares none."
    from pysqlsync.formation import object_types as ot

    M = importlib.import_module(f"pysqlsync.dialect.{dialect}.object_types")
    factory = g.new(next(v for v in vars(M).values() if isinstance(v, type) and issubclass(v, ot.ObjectFactory) and v.__module__ == M.__name__))
    kind = g.choice("kind", list(kinds()))
    base = kinds()[kind]
    own = [v for v in vars(M).values() if isinstance(v, type) and issubclass(v, base) and v.__module__ == M.__name__
           and not (kind == "table_class" and issubclass(v, ot.EnumTable))]
    # the most specific one
    leaves = [c for c in own if not any(d is not c and issubclass(d, c) for d in own)]
    got = g.attr(factory, kind)
    if leaves:
        g.ensure("the class of the dialect", got in leaves, got)
        g.cover("declared")
    else:
        g.ensure("the common class", got is base or issubclass(got, base) and got.__module__.startswith("pysqlsync."), got)


for _d in ("delta", "mssql", "mysql", "oracle", "postgresql", "snowflake"):
    contract("P17", f"factory_{_d}", [f"pysqlsync/dialect/{_d}/object_types.py::{k}" for k in kinds()], covers=("declared",), samples=20)(lambda g, d=_d: factory_contract(g, d))


# ---------------------------------------------------------------------- what a connection and its context keep
def keeps(g, dialect):
    "A connection keeps the generator and the parameters that it is given; the context that it is opened with belongs to it."
    M = importlib.import_module(f"pysqlsync.dialect.{dialect}.connection")
    of = lambda base: next(v for v in vars(M).values() if isinstance(v, type) and issubclass(v, base) and v.__module__ == M.__name__)
    generator, params = g.opaque("generator"), g.opaque("params")
    conn = g.new(of(pb.BaseConnection), generator, params)
    g.ensure("the generator", conn.generator is generator, conn)
    g.ensure("the parameters", conn.params is params, conn)
    ctx = g.new(of(pb.BaseContext), conn)
    g.ensure("the connection", ctx.connection is conn, ctx)
    native = g.opaque("native")
    opened = g.obj(of(pb.BaseConnection), native=native)
    g.ensure("the connection of the driver", g.attr(g.obj(of(pb.BaseContext), connection=opened), "native_connection") is native)
    g.cover("kept")


for _d in ("mssql", "mysql", "oracle", "postgresql", "redshift", "trino"):
    contract("P17", f"keeps_{_d}", ["pysqlsync/base.py::BaseConnection.__init__", "pysqlsync/base.py::BaseContext.__init__",
                                    f"pysqlsync/dialect/{_d}/connection.py::native_connection"], covers=("kept",), samples=2)(lambda g, d=_d: keeps(g, d))
