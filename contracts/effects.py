"""
The assumed contracts of what lies outside: the event loop and the thread pool, TLS contexts, the database drivers.
Instances of these classes stand in for the external objects when the code under contract is verified.
"""
from __future__ import annotations

import asyncio
import concurrent.futures
import ssl

from pysqlsync.util import dispatch


class Loop:
    "An event loop. A function run in an executor yields what the function returns, or raises what it raises."

    async def run_in_executor(self, pool, f):
        return f()


class Pool:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def running_loop():
    return Loop()


def thread_pool(*args, **kwargs):
    return Pool()


def threads(g):
    "A function dispatched to a thread is run, once, and its outcome is passed on."
    if g.symbolic:
        g.stub(asyncio, "get_running_loop", running_loop)
        g.override(concurrent.futures.ThreadPoolExecutor, lambda e, *a, **k: e.call(thread_pool, a, k))


class TLSContext:
    "An SSL context as the standard library (and truststore) create it for a client."

    def __init__(self, trusted):
        self.check_hostname = True
        self.verify_mode = ssl.CERT_REQUIRED
        self.trusted = trusted


def default_context(purpose=ssl.Purpose.SERVER_AUTH, *, cafile=None, capath=None, cadata=None):
    return TLSContext(True)


def client_context(protocol=None):
    assert protocol is ssl.PROTOCOL_TLS_CLIENT
    return TLSContext(True)


def bare_context(protocol=None):
    assert protocol is ssl.PROTOCOL_TLS_CLIENT
    return TLSContext(False)


def tls(g):
    if not g.symbolic:
        return
    import truststore

    g.override(ssl.create_default_context, lambda e, *a, **k: e.call(default_context, list(a), k))
    g.override(truststore.SSLContext, lambda e, *a, **k: e.call(client_context, list(a), k))
    g.override(ssl.SSLContext, lambda e, *a, **k: e.call(bare_context, list(a), k))


class Log:
    "What is observed, in order."

    def __init__(self):
        self.items = []

    def add(self, *x):
        self.items.append(x)
