"""P13 The requested TLS mode is enforced and never silently downgraded."""
from __future__ import annotations

import asyncio
import ssl


import aiomysql
import aiotrino
import asyncpg
import pymysql
import redshift_connector

import pysqlsync.connection as pc
import pysqlsync.dialect.mysql.connection as my
import pysqlsync.dialect.postgresql.connection as pg
import pysqlsync.dialect.redshift.connection as rs
import pysqlsync.dialect.trino.connection as tr
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode as Mode

from contracts.effects import Log, threads, tls
from pyvc.contract import contract, finding

MODES = [None] + list(Mode)
VERIFY = (Mode.verify_ca, Mode.verify_full)


@contract("P13", "create_context", ["pysqlsync/connection.py::create_context"], covers=("context", "no context"),
          assumes=("ssl.create_default_context and truststore.SSLContext return contexts that trust the authorities of "
                   "the system, and require a certificate and check the host name unless told otherwise",))
def create_context(g):
    mode = g.choice("mode", MODES)
    tls(g)
    r = g.outcome(pc.create_context, None, mode)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    c = r.value
    if mode is None or mode is Mode.disable:
        g.ensure("no TLS", c is None, c)
        g.cover("no context")
        return
    g.cover("context")
    g.ensure("TLS", c is not None, c)
    if c is None:
        return
    g.ensure("the host name is checked in this mode only", c.check_hostname is (mode is Mode.verify_full), (mode, c.check_hostname))
    g.ensure("a certificate is required when it is verified", c.verify_mode == (ssl.CERT_REQUIRED if mode in VERIFY else ssl.CERT_NONE),
             (mode, c.verify_mode))
    if mode in VERIFY:
        if g.symbolic:
            g.ensure("trusted authorities", c.trusted, mode)
        elif type(c) is ssl.SSLContext:
            g.ensure("trusted authorities", c.cert_store_stats()["x509_ca"] > 0, mode)


class Context:
    "The SSL context created for a mode."

    def __init__(self, mode):
        self.mode = mode


def context_for(mode):
    if mode is None or mode is Mode.disable:
        return None
    return Context(mode)


class Version:
    major = 16
    minor = 1
    micro = 0
    releaselevel = "final"


class Native:
    "A connection of the driver."

    def get_server_version(self):
        return Version()


class Attempt:
    def __init__(self, host, password, ssl):
        self.host = host
        self.password = password
        self.ssl = ssl


class Driver:
    "The driver: every attempt to connect ends as told."

    def __init__(self, outcomes):
        self.outcomes = outcomes
        self.attempts = []
        self.connections = []

    async def connect(self, *, host=None, password=None, ssl=None, **rest):
        n = len(self.attempts)
        assert n < 3, "attempts without end"
        self.attempts.append(Attempt(host, password, ssl))
        failure = self.outcomes[min(n, 1)]
        if failure is not None:
            raise failure
        self.connections.append(Native())
        return self.connections[-1]


class AccessDenied(pymysql.err.OperationalError):
    pass


FAILURES = {
    pg.PostgreSQLConnection: ([ConnectionError("refused"), ConnectionRefusedError("refused")],
                              [asyncpg.InvalidAuthorizationSpecificationError("no encryption")],
                              [asyncpg.InvalidCatalogNameError("no such database"), ValueError("port"), KeyError("x"), RuntimeError("x")]),
    my.MySQLConnection: ([pymysql.err.OperationalError(2003, "can't connect"), AccessDenied(1045, "denied")], [],
                         [pymysql.err.ProgrammingError("x"), ValueError("port"), KeyError("x"), RuntimeError("x")]),
}


def opening(g, cls, owner, url_only=()):
    down, insecure, other = FAILURES[cls]
    mode = g.choice("mode", MODES)
    every = [None] + down + insecure + other
    outcomes = [every[g.choice("first attempt", list(range(len(every))))], every[g.choice("second attempt", list(range(len(every))))]]
    driver = g.new(Driver, outcomes)
    g.stub(owner, "connect", driver.connect)
    g.stub(pc, "create_context", context_for)
    opt = lambda n: g.opt(n, lambda p: g.text(p))
    params = g.new(ConnectionParameters, opt("host"), g.choice("port", [None, 1234]), opt("username"), opt("password"), opt("database"), mode)
    conn = g.new(cls, None, params)
    r = g.outcome(conn, "open")
    used = []
    for attempt in g.items(driver.attempts):
        c = attempt.ssl
        if isinstance(c, Context):
            g.ensure("the context is that of the mode", c.mode is mode, (mode, c))
            used.append(True)
        else:
            # without a mode, what TLS does is up to the driver
            g.ensure("the driver is told not to use TLS", mode is None or (c is False if cls is pg.PostgreSQLConnection else not c), (mode, c))
            used.append(False)
        for k, want in (("password", params.password), ("host", params.host)):
            got = getattr(attempt, k)
            if cls is my.MySQLConnection:
                want_it = g.Or(g.eq(got, want), g.is_none(want), g.eq(want, ""))
            else:
                want_it = g.eq(got, want)
            g.ensure(f"the {k} is that of the parameters", want_it, (got, want))
    first, second = outcomes
    if mode is None or mode is Mode.disable:
        g.ensure("one attempt without TLS", used == [False], used)
        g.cover("plain")
    elif mode is Mode.prefer:
        g.ensure("TLS is tried first", used[:1] == [True], used)
        g.ensure("then without TLS if the connection fails", used[1:] == ([False] if first in down else []) or first in insecure, (first, used))
        g.cover("prefer")
    elif mode is Mode.allow:
        g.ensure("plaintext is tried first", used[:1] == [False], used)
        g.ensure("then TLS if the connection fails", used[1:] == ([True] if first in down or first in insecure else []), (first, used))
        g.cover("allow")
    else:
        g.ensure("one attempt with TLS", used == [True], used)
        g.cover("strict")
    g.ensure("at most two attempts", len(used) <= 2, used)
    last = outcomes[min(len(used), 2) - 1]
    if last is None:
        g.ensure("not refused", not r.raised, r)
        if not r.raised:
            g.ensure("the connection is the one that was established", conn.native is g.items(driver.connections)[-1], None)
            g.ensure("the context belongs to the connection", r.value.connection is conn, None)
            g.ensure("one connection is established", len(g.items(driver.connections)) == 1, None)
    else:
        g.ensure("the failure is reported", r.raised and r.value is last, (r, last))


for _c, _o, _m in ((pg.PostgreSQLConnection, asyncpg, "postgresql"), (my.MySQLConnection, aiomysql, "mysql")):
    contract("P13", f"open_{_m}", [f"pysqlsync/dialect/{_m}/connection.py::{_c.__name__}.open", f"pysqlsync/dialect/{_m}/connection.py::{_c.__name__}._open"],
             covers=("plain", "prefer", "allow", "strict"))(lambda g, c=_c, o=_o: opening(g, c, o))


# ---------------------------------------------------------------------- dialects that connect with an option of the driver
def option(g, cls, owner):
    "What the driver is told."
    mode = g.choice("mode", MODES)
    failure = g.choice("failure", [None, 0, 1])
    failure = None if failure is None else [ConnectionError("refused"), RuntimeError("x")][failure]
    threads(g)
    driver = g.new(Options, failure)
    g.stub(owner, "connect", driver.connect)
    params = g.new(ConnectionParameters, "db.example.com", 1234, g.text("user"), g.text("password"), "db", mode)
    r = g.outcome(g.new(cls, None, params), "open")
    told = g.items(driver.told)
    g.ensure("one attempt", len(told) == 1, told)
    g.ensure("a failure is reported", (not r.raised) if failure is None else r.raised and r.value is failure, r)
    return mode, [{k: t[k] for k in t} if not g.symbolic else {k: g.item(t, k) for k in g.items(g.call(list, t))} for t in told]


class Options:
    def __init__(self, failure):
        self.failure = failure
        self.told = []

    def connect(self, **kwargs):
        self.told.append(kwargs)
        if self.failure is not None:
            raise self.failure
        return Native()


@contract("P13", "open_redshift", ["pysqlsync/dialect/redshift/connection.py::RedshiftConnection.open"], covers=("verified", "checked", "plain"),
          assumes=("redshift_connector requires a certificate of a trusted authority whenever TLS is used, which is unless ssl is False; "
                   "with sslmode verify-full passed explicitly, it checks the host name; with IAM, it refuses to connect without TLS",))
def open_redshift(g):
    mode, told = option(g, rs.RedshiftConnection, redshift_connector)
    for t in told:
        if mode is Mode.disable:
            g.ensure("TLS is disabled", t.get("ssl") is False, t)
            g.cover("plain")
        elif mode is not None:
            g.ensure("TLS is used", t.get("ssl") in (None, True), t)
            g.ensure("the mode is known to the driver", t.get("sslmode") in (None, "verify-ca", "verify-full"), t)
            g.ensure("the host name is checked in this mode only", (t.get("sslmode") == "verify-full") == (mode is Mode.verify_full), (mode, t))
            g.cover("verified" if mode is Mode.verify_full else "checked")


class Basic:
    def __init__(self, user, password):
        pass


@contract("P13", "open_trino", ["pysqlsync/dialect/trino/connection.py::TrinoConnection.open"], covers=("secure", "plain"),
          assumes=("aiotrino requires a certificate of a trusted authority and checks the host name if the scheme is https, unless verify is False",))
def open_trino(g):
    g.stub(aiotrino.auth, "BasicAuthentication", Basic)
    mode, told = option(g, tr.TrinoConnection, aiotrino.dbapi)
    for t in told:
        if mode is Mode.disable:
            g.ensure("TLS is disabled", t.get("http_scheme") in (None, "http"), t)
            g.cover("plain")
        elif mode is not None:
            g.ensure("TLS is used", t.get("http_scheme") == "https", t)
            if mode in VERIFY:
                g.ensure("the certificate is verified", t.get("verify") in (None, True), t)
            g.cover("secure")


# ---------------------------------------------------------------------- recorded defects
class Recorder:
    "A driver module in whose place only the arguments are recorded."

    def __init__(self):
        self.calls = []

    def connect(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        raise ConnectionError("recorded")


def recorded(module, driver, cls, mode):
    r, old = Recorder(), driver.connect
    try:
        driver.connect = r.connect
        conn = cls(None, ConnectionParameters("db.example.com", 1234, "user", "secret", "db", mode))
        try:
            asyncio.run(conn.open())
        except ConnectionError:
            pass
    finally:
        driver.connect = old
    return r.calls


@finding("P13")
def mssql_mode_ignored():
    "Recorded defect: the TLS mode has no effect with Microsoft SQL Server; any certificate is trusted."
    import pyodbc
    import pysqlsync.dialect.mssql.connection as ms

    calls = recorded(ms, pyodbc, ms.MSSQLConnection, Mode.verify_full)
    if any("TrustServerCertificate=yes" in str(c) for c in calls):
        return "Microsoft SQL Server: verify-full connects with TrustServerCertificate=yes"
    return None


@finding("P13")
def oracle_mode_ignored():
    "Recorded defect: the TLS mode has no effect with Oracle; the connection is plain TCP."
    import oracledb
    import pysqlsync.dialect.oracle.connection as oc

    calls = recorded(oc, oracledb, oc.OracleConnection, Mode.require)
    plain = [k for a, k in calls if not str(k.get("dsn", "")).startswith("tcps:") and k.get("protocol") != "tcps"]
    return "Oracle: require connects over plain TCP" if plain else None


@finding("P13")
def mysql_server_without_tls():
    "Recorded defect: aiomysql goes on in plaintext when the server does not offer TLS."
    import struct

    seen = []

    async def server(reader, writer):
        # a greeting of protocol version 10 with authentication but without CLIENT_SSL (0x800)
        caps = 0x1 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000
        body = (b"\x0a8.0.0\0" + struct.pack("<I", 1) + b"abcdefgh\0" + struct.pack("<H", caps & 0xFFFF) + b"\x21" + struct.pack("<H", 2)
                + struct.pack("<H", caps >> 16) + b"\x15" + b"\0" * 10 + b"ijklmnopqrst\0" + b"mysql_native_password\0")
        writer.write(struct.pack("<I", len(body))[:3] + b"\0" + body)
        await writer.drain()
        head = await reader.read(4)
        if len(head) == 4:
            seen.append(await reader.read(4096))
        writer.close()

    async def run():
        s = await asyncio.start_server(server, "127.0.0.1", 0)
        port = s.sockets[0].getsockname()[1]
        try:
            conn = my.MySQLConnection(None, ConnectionParameters("127.0.0.1", port, "user", "secret", "db", Mode.require))
            await asyncio.wait_for(conn.open(), 10)
        except Exception:
            pass
        s.close()

    asyncio.run(run())
    return "MySQL: require sends the login in plaintext to a server that does not offer TLS" if any(b"user\0" in x for x in seen) else None
