"""C26: aiomisc.service.tcp, tls, udp (servers) and utils.bind_socket."""
import asyncio
import contextlib
import inspect
import os
import shutil
import socket
import ssl
import sys
import tempfile

from pyvc import core, simloop
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, close_coro, drive
from pyvc.load import load, need

ASSUME = ["asyncio.start_server calls its callback once for each client, with a new pair of streams, and "
          "create_datagram_endpoint makes one protocol which gets each datagram once",
          "Server.wait_closed returns once the server is closed and its connections are (asyncio)",
          "TaskStoreBase.create_task/stop keep their contracts (C25), utils.awaitable too (C10)",
          "connections which asyncio has accepted, but not yet announced when stop begins are left out",
          "ssl.SSLContext enforces its attributes"]
BOUNDED = {"stopping": "three clients", "bind": "eight addresses, two options", "datagram": "two datagrams",
           "stop_udp": "three datagrams"}
CONTRACTS = ["TCPServer.__init__/start/make_client_handler/stop/address/port", "TLSServer (the same)",
             "UDPServer.__init__/start/sendto/stop/address/port", "UDPServer.UDPSimpleProtocol.datagram_received",
             "SSLOptions.create_context (every combination of options of servers)",
             "utils.bind_socket"]


def guard(f):
    def h(ctx):
        try:
            f(ctx)
        except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
            raise
        except Exception as e:
            ctx.check(False, "no operation fails by itself", repr(e))
    h.__name__ = f.__name__
    h.__doc__ = f.__doc__
    return h


class Thing:
    def __init__(self, name=""):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class Sock(socket.socket):
    """a socket which is none"""
    name = ("10.1.2.3", 4711)
    falsy = False

    def __init__(self):
        pass

    def __bool__(self):
        return True

    def getsockname(self):
        return self.name

    def close(self):
        pass

    def __del__(self):
        pass

    def __repr__(self):
        return "<socket>"


class Writer:
    def __init__(self):
        self.closed = 0

    def close(self):
        self.closed += 1

    def is_closing(self):
        return self.closed > 0

    def get_extra_info(self, *a):
        return ("client", 1)


class Task:
    """a task of the loop"""

    def __init__(self, coro):
        if not asyncio.iscoroutine(coro):
            raise TypeError("a coroutine was expected, got %r" % (coro,))
        self.coro, self.cbs, self.state, self.value = coro, [], None, None
        self.cancelling_ = 0

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.state == "cancelled"

    def exception(self):
        if self.state == "cancelled":
            raise asyncio.CancelledError
        return self.value if self.state == "exc" else None

    def add_done_callback(self, f, **kw):
        self.cbs.append(f)

    def remove_done_callback(self, f):
        self.cbs = [c for c in self.cbs if c != f]

    def cancel(self, *a):
        if self.state is None:
            self.cancelling_ += 1
            return True
        return False

    def run(self, handler):
        st, v = drive(self.coro, handler)
        self.state = "cancelled" if st == "exc" and isinstance(v, asyncio.CancelledError) else st
        self.value = v
        for f in list(self.cbs):
            f(self)
        return st, v


class Server:
    def __init__(self):
        self.closed = 0

    def close(self):
        self.closed += 1

    def is_serving(self):
        return not self.closed

    async def wait_closed(self):
        await Suspend("wait_closed", self)

    async def start_serving(self):
        pass


class Transport:
    def __init__(self):
        self.closed, self.sent = 0, []

    def close(self):
        self.closed += 1

    def abort(self):
        self.closed += 1

    def is_closing(self):
        return self.closed > 0

    def sendto(self, data, addr=None):
        self.sent.append((data, addr))
        return "sent"

    def get_extra_info(self, k, default=None):
        return Sock.name if k == "sockname" else default


class World:
    def __init__(self, ctx):
        w = self
        w.ctx, w.tasks, w.listening, w.executed, w.cancels, w.bound = ctx, [], [], [], [], []

        class Loop:
            def create_task(self, coro, **kw):
                w.tasks.append(Task(coro))
                return w.tasks[-1]

            async def run_in_executor(self, ex, f, *a):
                return await Suspend("executor", f, a)

            async def create_datagram_endpoint(self, factory, *a, **kw):
                return await Suspend("endpoint", factory, a, kw)

            def __getattr__(self, name):
                raise core.Unsupported("loop.%s" % name)
        w.loop = Loop()

    async def start_server(self, cb, *a, **kw):
        return await Suspend("server", cb, a, kw)

    def bind(self, *a, **kw):
        self.bound.append((a, kw))
        s = Sock()
        s.made = True
        return s


TLS_ARGS = dict(cert="/c/cert.pem", key="/c/key.pem")


@contextlib.contextmanager
def tasks_cancelled(w):
    """cancel_tasks by its contract (C08)"""
    import aiomisc.service.base as base

    def cancel_tasks(tasks):
        ts = list(tasks)
        w.cancels.append(ts)
        return Suspend("cancel", ts)
    old = base.cancel_tasks
    base.cancel_tasks = cancel_tasks
    try:
        yield cancel_tasks
    finally:
        base.cancel_tasks = old


def world(ctx, kind):
    name = {"TCP": "tcp", "TLS": "tls", "UDP": "udp"}[kind]
    mod = load("aiomisc.service." + name, transform=ctx.sym)
    need(mod, kind + "Server", "bind_socket", "asyncio", "socket")
    w = World(ctx)
    w.mod, w.kind = mod, kind
    mod.bind_socket = w.bind
    mod.asyncio = NS(asyncio, start_server=w.start_server, get_running_loop=lambda: w.loop,
                     get_event_loop=lambda: w.loop, create_task=lambda c, **k: w.loop.create_task(c))
    if kind == "TLS":
        w.contexts = []

        def create_default_context(purpose=ssl.Purpose.SERVER_AUTH, **kw):
            c = Ctx(purpose, **kw)
            w.contexts.append(c)
            return c
        mod.ssl = NS(ssl, create_default_context=create_default_context)
    w.cls = getattr(mod, kind + "Server")
    return w


class Ctx(ssl.SSLContext):
    """what create_default_context gives (the real thing; no files are read)"""

    def __new__(cls, purpose, **kw):
        self = super().__new__(cls, ssl.PROTOCOL_TLS_CLIENT if purpose == ssl.Purpose.SERVER_AUTH else
                               ssl.PROTOCOL_TLS_SERVER)
        return self

    def __init__(self, purpose, cafile=None, capath=None, cadata=None):
        self.purpose, self.chains, self.cas, self.ciphers = purpose, [], [], None
        self.options &= ~ssl.OP_NO_COMPRESSION
        if purpose == ssl.Purpose.SERVER_AUTH:
            self.verify_mode = ssl.CERT_REQUIRED
            self.check_hostname = True
        if cafile or capath or cadata:
            self.cas.append(cafile or capath or cadata)

    def load_cert_chain(self, certfile, keyfile=None, password=None):
        self.chains.append((str(certfile), str(keyfile)))

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        self.cas.append(str(cafile or capath or cadata))

    def load_default_certs(self, *a):
        pass

    def set_ciphers(self, c):
        super().set_ciphers(c)
        self.ciphers = c


def make(ctx, w, handler, **kw):
    """a service of a derived class"""
    name = "handle_datagram" if w.kind == "UDP" else "handle_client"
    cls = type("S", (w.cls,), {name: handler, "__module__": __name__})
    if w.kind == "TLS":
        kw = dict(TLS_ARGS, **kw)
    s = cls(**kw)
    s.loop = w.loop
    return s


def serve(ctx, w, s):
    """start the service -> the callback asyncio has got"""
    got = []

    def handler(q):
        if q.kind == "executor":
            f, a = q.args
            try:
                return Ret(f(*a))
            except (core.PathEnd, core.Unsupported):
                raise
            except Exception as e:
                return Exc(e)
        if q.kind in ("server", "endpoint"):
            got.append(q)
            if q.kind == "endpoint":
                p = q.args[0]()
                tr = Transport()
                p.connection_made(tr)
                got.append(p)
                got.append(tr)
                return Ret((tr, p))
            got.append(Server())
            return Ret(got[-1])
        raise core.Unsupported("start awaits %r" % q)
    st, v = drive(s.start(), handler)
    ctx.check(st == "ret", "a server starts", v)
    if st != "ret":
        raise core.PathEnd
    return got


def construct(ctx):
    """which socket a server uses"""
    kind = ctx.pick(("TCP", "TLS", "UDP"), "kind")
    w = world(ctx, kind)
    sock = ctx.pick((None, "given", "other"), "sock")
    address = ctx.pick((None, "", "10.0.0.1", "::1", "localhost", "::"), "address")
    port = ctx.pick((None, 0, "some"), "port")
    if port == "some":
        port = ctx.int("port", 1)
    options = ctx.pick((None, (), ((1, 2, 3),)), "options")
    kw = {}
    if sock == "given":
        kw["sock"] = the = Sock()
    elif sock == "other":
        kw["sock"] = Thing("no socket")
    for k, v in (("address", address), ("port", port), ("options", options)):
        if v is not None:
            kw[k] = v
    kw["extra"] = extra = Thing("extra")

    async def handle(self, *a):
        pass
    try:
        s, err = make(ctx, w, handle, **kw), None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        s, err = None, e
    good = sock == "given" or sock is None and address is not None and port is not None
    ctx.check((err is None) == good, "a server needs a socket or an address and a port", (kw, err))
    if err is not None:
        ctx.check(isinstance(err, (RuntimeError, ValueError, TypeError)), "a server needs a socket or an address and "
                  "a port", err)
        ctx.cover("refused")
        return
    ctx.check(s.extra is extra, "further arguments are attributes")
    ctx.check(not w.bound, "the socket is bound when the server starts")
    ctx.check(s.address is None and s.port is None, "a server which was not started has no address")
    got = serve(ctx, w, s)
    q = got[0]
    used = q.args[2].get("sock")
    ctx.check(isinstance(used, Sock), "a server uses its socket", q)
    if sock == "given":
        ctx.check(used is the and not w.bound, "a server uses its socket", (used, w.bound))
    else:
        ctx.check(getattr(used, "made", False) and len(w.bound) == 1, "a server binds one socket", w.bound)
        a, b = w.bound[0]
        import aiomisc.utils as utils
        b = inspect.signature(utils.bind_socket).bind(*a, **b)
        b.apply_defaults()
        b = b.arguments
        ctx.check(b["address"] == address and bool(b["port"] == port) and tuple(b["options"]) == tuple(options or ()),
                  "the socket is bound to the given address, with the options", w.bound)
        ctx.check(b["reuse_addr"] is True and b["reuse_port"] is True, "the socket is bound to the given address, "
                  "with the options", w.bound)
        if b["args"]:
            fam = socket.AF_INET6 if ":" in address else socket.AF_INET
            ctx.check(tuple(b["args"][:2]) == (fam, socket.SOCK_DGRAM if kind == "UDP" else socket.SOCK_STREAM),
                      "the socket has the type of the server", w.bound)
        else:
            ctx.check(kind != "UDP", "the socket has the type of the server", w.bound)
    ctx.check(s.address == Sock.name[0] and s.port == Sock.name[1], "a server knows its address", (s.address, s.port))
    if kind == "TLS":
        c = q.args[2].get("ssl")
        ctx.check(isinstance(c, Ctx) and c.purpose == ssl.Purpose.CLIENT_AUTH and
                  c.chains == [(TLS_ARGS["cert"], TLS_ARGS["key"])], "a TLS server talks TLS, with its certificate", q)
    elif kind == "TCP":
        ctx.check(q.args[2].get("ssl") is None, "a TCP server does not talk TLS", q)
    ctx.cover("started")


HANDLERS = ("async", "plain", "returns")


def handler_of(ctx, calls, how):
    """handlers of all kinds; -> function, what a call of it gives"""
    if how == "async":
        async def handle(self, *a):
            calls.append((self, a))
            return await Suspend("handling", len(calls) - 1)
    elif how == "plain":
        def handle(self, *a):
            calls.append((self, a))
            return None
    else:
        async def inner(n):
            return await Suspend("handling", n)

        def handle(self, *a):
            calls.append((self, a))
            return inner(len(calls) - 1)
    return handle


def client(ctx):
    """every client is given to the handler once, in a task of the service"""
    kind = ctx.pick(("TCP", "TLS"), "kind")
    w = world(ctx, kind)
    calls = []
    how = ctx.pick(HANDLERS, "handler")
    s = make(ctx, w, handler_of(ctx, calls, how), sock=Sock())
    q = serve(ctx, w, s)[0]
    cb = q.args[0]
    pairs = [(Thing("reader"), Writer()) for _ in range(2)]
    mine = []
    for r, wr in pairs:
        n = len(w.tasks)
        res = cb(r, wr)
        if asyncio.iscoroutine(res):
            # asyncio runs it in a task nobody cancels
            st, res = drive(res, lambda q: Exc(core.Unsupported("the callback awaits %r" % q)))
            if st == "exc":
                raise res if isinstance(res, core.Unsupported) else core.Unsupported("the callback fails: %r" % res)
        new = w.tasks[n:]
        ctx.check(len(new) == 1, "every client has a task of its own", new)
        if len(new) != 1:
            return
        ctx.check(new[0] in s.tasks, "the task of a client is one of the service")
        mine += new
    # the second client is served while the first one still is, or before it
    order = (0, 1) if ctx.choose(2, "order") else (1, 0)
    for i in order:
        t, (r, wr) = mine[i], pairs[i]
        before = len(calls)
        out = {}

        def on(q):
            if q.kind != "handling":
                raise core.Unsupported("a handler awaits %r" % q)
            ctx.check(len(calls) == before + 1, "the handler is called once for each client", calls)
            ctx.check(wr.closed == 0, "the connection is open while it is handled")
            k = ctx.pick(("ret", "fail", "cancel"), "handled")
            out["how"] = k
            if k == "ret":
                return Ret(Thing("result"))
            out["exc"] = asyncio.CancelledError() if k == "cancel" else KeyError("x")
            return Exc(out["exc"])
        st, v = t.run(on)
        ctx.check(len(calls) == before + 1, "the handler is called once for each client", calls)
        ctx.check(calls[-1][0] is s and len(calls[-1][1]) == 2 and calls[-1][1][0] is r and calls[-1][1][1] is wr,
                  "the handler gets the streams of the client", calls)
        if how == "plain":
            out["how"] = "ret"
        ctx.check((st == "ret") == (out["how"] == "ret"), "the task ends like the handler", (st, v, out))
        if "exc" in out and st == "exc":
            ctx.check(v is out["exc"], "the task ends like the handler", (v, out))
        if st == "exc":
            ctx.check(wr.closed >= 1, "the connection is closed when its handler has failed")
        else:
            ctx.check(wr.closed == 0, "a connection is left to its handler")
        o = pairs[1 - i][1]
        if order[0] == i:
            ctx.check(o.closed == 0 and not mine[1 - i].done() and not mine[1 - i].cancelling_,
                      "clients do not influence each other")
    ctx.cover("served")


def stopping(ctx):
    """nothing is accepted any more, all the handlers are cancelled and ended"""
    kind = ctx.pick(("TCP", "TLS"), "kind")
    w = world(ctx, kind)
    calls = []
    s = make(ctx, w, handler_of(ctx, calls, "async"), sock=Sock())
    e = ctx.pick((None, ValueError()), "reason")
    with tasks_cancelled(w) as ct:
        if hasattr(w.mod, "cancel_tasks"):
            w.mod.cancel_tasks = ct
        if ctx.choose(2, "started"):
            q, server = serve(ctx, w, s)
        else:
            server = None
        running = []
        if server:
            for _ in range(ctx.choose(4, "clients")):
                q.args[0](Thing("reader"), Writer())
            for t in list(w.tasks):
                if ctx.choose(2, "over"):
                    t.run(lambda q: Ret(None))
                else:
                    running.append(t)

        def on(q):
            if q.kind == "cancel":
                ctx.check(not server or server.closed > 0, "no client is accepted while the others are cancelled")
                for t in q.args[0]:
                    if not t.done():
                        t.run(lambda q: Exc(asyncio.CancelledError()))
                return Ret(None)
            if q.kind == "wait_closed":
                ctx.check(q.args[0].closed > 0, "stopping waits for a server which is not closed")
                ctx.check(all(t.done() for t in running), "stopping waits for clients which nobody cancels")
                return Ret(None)
            raise core.Unsupported("stop awaits %r" % q)
        st, v = drive(s.stop(e) if ctx.choose(2, "with reason") else s.stop(), on)
        ctx.check(st == "ret", "stopping does not fail", v)
        ctx.check(all(t.done() for t in running), "all handlers have ended when the server is stopped")
        ctx.check(not server or server.closed > 0, "a stopped server accepts no clients")
        for t in w.tasks:
            close_coro(t.coro)
    ctx.cover("stopped")


def datagram(ctx):
    """every datagram is given to the handler once, in a task of the service"""
    w = world(ctx, "UDP")
    calls = []
    how = ctx.pick(HANDLERS, "handler")
    s = make(ctx, w, handler_of(ctx, calls, how), sock=Sock())
    q, proto, tr = serve(ctx, w, s)
    s.sendto(b"a", ("h", 1))
    ctx.check(tr.sent == [(b"a", ("h", 1))], "sendto sends a datagram", tr.sent)
    items = [(Thing("data"), ("a", i)) for i in range(2)]
    if ctx.choose(2, "same"):
        items[1] = items[0]
    mine = []
    for d, a in items:
        n = len(w.tasks)
        proto.datagram_received(d, a)
        new = w.tasks[n:]
        ctx.check(len(new) == 1, "every datagram has a task of its own", new)
        if len(new) != 1:
            return
        ctx.check(new[0] in s.tasks, "the task of a datagram is one of the service")
        mine += new
    for i in ((0, 1) if ctx.choose(2, "order") else (1, 0)):
        out = {}

        def on(q):
            if q.kind != "handling":
                raise core.Unsupported("a handler awaits %r" % q)
            k = ctx.pick(("ret", "fail", "cancel"), "handled")
            out["exc"] = {"ret": None, "fail": KeyError("x"), "cancel": asyncio.CancelledError()}[k]
            return Exc(out["exc"]) if out["exc"] else Ret(Thing("result"))
        st, v = mine[i].run(on)
        ctx.check(st == "ret" if out.get("exc") is None else v is out["exc"], "the task ends like the handler", (st, v))
    ctx.check(len(calls) == 2, "the handler is called once for each datagram", calls)
    left = list(items)
    for me, a in calls:
        ctx.check(me is s and len(a) == 2, "the handler gets the datagram and its address", calls)
        k = [j for j, (d, ad) in enumerate(left) if len(a) == 2 and a[0] is d and a[1] is ad]
        ctx.check(bool(k), "the handler gets the datagram and its address", calls)
        if k:
            left.pop(k[0])
    ctx.check(tr.closed == 0, "the socket is open until the server is stopped")
    ctx.cover("served")


def stop_udp(ctx):
    """no datagrams any more, all the handlers are cancelled and ended"""
    w = world(ctx, "UDP")
    calls = []
    s = make(ctx, w, handler_of(ctx, calls, "async"), sock=Sock())
    with tasks_cancelled(w) as ct:
        if hasattr(w.mod, "cancel_tasks"):
            w.mod.cancel_tasks = ct
        tr = None
        running = []
        if ctx.choose(2, "started"):
            q, proto, tr = serve(ctx, w, s)
            for i in range(ctx.choose(4, "datagrams")):
                proto.datagram_received(b"x", ("a", i))
            for t in list(w.tasks):
                if ctx.choose(2, "over"):
                    t.run(lambda q: Ret(None))
                else:
                    running.append(t)
        else:
            try:
                s.sendto(b"a", ("h", 1))
                ctx.check(False, "a server which was not started cannot send")
            except (core.PathEnd, core.Unsupported):
                raise
            except Exception:
                pass

        def on(q):
            if q.kind == "cancel":
                for t in q.args[0]:
                    if not t.done():
                        t.run(lambda q: Exc(asyncio.CancelledError()))
                if tr is not None and not tr.closed and not late and ctx.choose(2, "a datagram meanwhile"):
                    n = len(w.tasks)
                    late.append(1)
                    proto.datagram_received(b"x", ("a", 99))
                    running.extend(w.tasks[n:])
                return Ret(None)
            raise core.Unsupported("stop awaits %r" % q)
        late = []
        e = ctx.pick((None, ValueError()), "reason")
        st, v = drive(s.stop(e) if ctx.choose(2, "with reason") else s.stop(), on)
        ctx.check(st == "ret", "stopping does not fail", v)
        ctx.check(all(t.done() for t in running), "all handlers have ended when the server is stopped")
        ctx.check(tr is None or tr.closed > 0, "a stopped server gets no datagrams")
        for t in w.tasks:
            close_coro(t.coro)
    ctx.cover("stopped")


CIPHERS = (None, ("ECDHE-RSA-AES256-GCM-SHA384",), ("ECDHE-RSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES128-GCM-SHA256"))
HERE = os.path.abspath(__file__)
V = ssl.TLSVersion


def tls_context(ctx, server=True):
    """an SSL context has the options of the service"""
    w = world(ctx, "TLS")
    mod = w.mod
    need(mod, "SSLOptions")
    ca = ctx.pick((None, HERE, HERE + ".missing"), "ca")
    cert, key = ctx.pick((("/a/c", "/a/k"), (None, None)), "cert") if not server else ("/a/c", "/a/k")
    verify = bool(ctx.choose(2, "verify"))
    require = server and bool(ctx.choose(2, "require_client_cert"))
    lo, hi = ctx.pick(((None, None), (V.TLSv1_2, V.TLSv1_2), (V.TLSv1_2, V.TLSv1_3)), "versions")
    ciphers = ctx.pick(CIPHERS, "ciphers")
    kw = {}
    if lo is not None:
        kw.update(minimum_version=lo, maximum_version=hi)
    if ciphers is not None:
        kw["ciphers"] = ciphers
    o = mod.SSLOptions(cert, key, ca, verify, require,
                       ssl.Purpose.CLIENT_AUTH if server else ssl.Purpose.SERVER_AUTH, **kw)
    try:
        c, err = o.create_context(), None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        c, err = None, e
    missing = ca is not None and ca != HERE
    ctx.check((err is not None) == missing, "a context is created unless the file of the CA is missing", err)
    if err is not None:
        ctx.check(isinstance(err, OSError), "a missing CA is an OSError", err)
        ctx.cover("missing")
        return
    ctx.check(isinstance(c, Ctx) and c.purpose == (ssl.Purpose.CLIENT_AUTH if server else ssl.Purpose.SERVER_AUTH),
              "the context is one of the side it is for", c)
    ctx.check(c.options & ssl.OP_NO_COMPRESSION, "there is no compression")
    ctx.check(c.minimum_version == (lo or V.TLSv1_3) and c.maximum_version == (hi or V.TLSv1_3),
              "the versions are the given ones", (c.minimum_version, c.maximum_version))
    want = tuple(ciphers or mod.DEFAULT_SSL_CIPHERS)
    ctx.check(c.ciphers is not None and tuple(c.ciphers.split(":")) == want, "the ciphers are the given ones", c.ciphers)
    ctx.check(c.cas == ([ca] if ca else []), "only certificates of the CA are trusted", c.cas)
    ctx.check(c.chains == ([(cert, key)] if cert else []), "the own certificate is used", c.chains)
    if server:
        if require:
            ctx.check(c.verify_mode == ssl.CERT_REQUIRED, "clients need a certificate if the server requires one")
        else:
            ctx.check(c.verify_mode == ssl.CERT_NONE, "clients need no certificate unless the server requires one")
    elif verify:
        ctx.check(c.verify_mode == ssl.CERT_REQUIRED, "a client verifies the certificate of the server")
        ctx.check(c.check_hostname, "a client verifies the name of the server")
    else:
        ctx.check(c.verify_mode == ssl.CERT_NONE and not c.check_hostname, "a client does not verify if told so")
    ctx.cover("created")


def tls_server(ctx):
    """the options of a TLS server reach its context"""
    w = world(ctx, "TLS")
    kw = {}
    require = bool(ctx.choose(2, "require"))
    if require or ctx.choose(2, "explicit"):
        kw["require_client_cert"] = require
    if ctx.choose(2, "ca"):
        kw["ca"] = HERE
    if ctx.choose(2, "verify"):
        kw["verify"] = bool(ctx.choose(2, "value"))
    lo, hi = ctx.pick(((None, None), (V.TLSv1_2, None), (V.TLSv1_2, V.TLSv1_2)), "versions")
    if lo:
        kw["minimum_version"] = lo
    if hi:
        kw["maximum_version"] = hi
    ciphers = ctx.pick(CIPHERS, "ciphers")
    if ciphers:
        kw["ciphers"] = ciphers

    async def handle(self, r, w):
        pass
    s = make(ctx, w, handle, sock=Sock(), **kw)
    for again in range(2):
        c = serve(ctx, w, s)[0].args[2].get("ssl")
        ctx.check(isinstance(c, Ctx), "a TLS server talks TLS, with its certificate", c)
        if not isinstance(c, Ctx):
            return
        ctx.check(c.purpose == ssl.Purpose.CLIENT_AUTH and c.chains == [(TLS_ARGS["cert"], TLS_ARGS["key"])],
                  "a TLS server talks TLS, with its certificate", c.chains)
        ctx.check(c.verify_mode == (ssl.CERT_REQUIRED if require else ssl.CERT_NONE),
                  "clients need a certificate if the server requires one", c.verify_mode)
        ctx.check(c.minimum_version == (lo or V.TLSv1_3) and c.maximum_version == (hi or V.TLSv1_3),
                  "the versions are the given ones", (c.minimum_version, c.maximum_version))
        ctx.check(c.cas == ([HERE] if "ca" in kw else []), "only certificates of the CA are trusted", c.cas)
        ctx.check(tuple((c.ciphers or "").split(":")) == tuple(ciphers or w.mod.DEFAULT_SSL_CIPHERS),
                  "the ciphers are the given ones", c.ciphers)
    ctx.cover("started")


ADDRESSES = ("127.0.0.1", "0.0.0.0", "", "localhost", "::", "::1", "2001:db8::1", "a.example")


def bind(ctx):
    """a socket of the family of the address, bound to it, with the options"""
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "bind_socket", "socket")
    made = []

    class S:
        def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
            self.family, self.type, self.proto = family, type, proto
            self.log, self.name, self.blocking, self.opts = [], None, True, []
            made.append(self)

        def setblocking(self, x):
            self.blocking = bool(x)

        def settimeout(self, x):
            self.blocking = x != 0

        def setsockopt(self, level, opt, value):
            ctx.check(self.name is None, "the options are set before the socket is bound")
            self.opts.append((level, opt, value))

        def bind(self, a):
            self.log.append(a)
            self.name = a

        def getsockname(self):
            if self.family == socket.AF_UNIX:
                return self.name
            return tuple(self.name) + ((0, 0) if self.family == socket.AF_INET6 else ())

        def close(self):
            self.log.append("closed")

    class Mod(NS):
        socket = S
    mod.socket = Mod(socket)
    mod.log = Sink()
    for name in ("sock_set_nodelay", "sock_set_reuseport"):
        if not hasattr(mod, name):
            raise core.Unsupported(name)
    reuse = []
    mod.sock_set_nodelay = lambda s: None
    mod.sock_set_reuseport = lambda s, v: reuse.append(v)
    address = ctx.pick(ADDRESSES, "address")
    port = ctx.pick((0, "some"), "port")
    if port == "some":
        port = ctx.int("port", 1)
    kw = {}
    if ctx.choose(2, "port given") or not isinstance(port, int):
        kw["port"] = port
    else:
        port = 0
    opts = ()
    if ctx.choose(2, "options"):
        opts = kw["options"] = tuple((ctx.int("level", 100), ctx.int("option"), ctx.int("value")) for _ in range(
            1 + ctx.choose(2, "n")))
    for k in ("reuse_addr", "reuse_port"):
        v = ctx.choose(3, k)
        if v:
            kw[k] = v == 2
    args = ctx.pick(((), (socket.AF_INET, socket.SOCK_DGRAM), (socket.AF_UNIX, socket.SOCK_STREAM)), "args")
    if args and args[0] == socket.AF_UNIX:
        address = "/path"
    s = mod.bind_socket(*args, address=address, **kw)
    ctx.check(len(made) == 1 and s is made[0], "one socket is made", made)
    fam, typ = args or (socket.AF_INET6 if ":" in address else socket.AF_INET, socket.SOCK_STREAM)
    ctx.check(s.family == fam and s.type == typ, "the socket has the family of the address", (s.family, s.type))
    ctx.check(len(s.log) == 1, "the socket is bound once", s.log)
    got = s.log[0]
    if fam == socket.AF_UNIX:
        ctx.check(got == address, "the socket is bound to the address", got)
    else:
        ctx.check(tuple(got)[0] == address and bool(tuple(got)[1] == port) and len(got) >= 2,
                  "the socket is bound to the address", got)
    ctx.check(not s.blocking, "the socket does not block")
    rest = list(s.opts)
    n = [o for o in rest if isinstance(o[0], int) and o[:2] == (socket.SOL_SOCKET, socket.SO_REUSEADDR)]
    ctx.check(any(o[2] for o in n) == kw.get("reuse_addr", True), "the address is reused if wanted", rest)
    ctx.check(any(reuse) == kw.get("reuse_port", True), "the port is reused if wanted", reuse)
    for o in opts:
        ctx.check(any(all(a is b for a, b in zip(o, x)) for x in rest), "all options are set", rest)
    # later settings of the same option do not undo them
    if opts:
        ctx.check(all(a is b for a, b in zip(rest[-1], opts[-1])), "all options are set", rest)
    ctx.cover("bound")


HARNESSES = [(h.__name__, guard(h)) for h in (
    construct, client, stopping, datagram, stop_udp, tls_context, tls_server, bind)]


def run_real(main):
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        asyncio.run(asyncio.wait_for(main(d), 25))
    finally:
        shutil.rmtree(d)


def fuzz_tcp(rng):
    """clients of a real server: served once each, whatever the others do"""
    import aiomisc.service as svc
    log = []

    async def main(d):
        path = os.path.join(d, "s")
        keep = []

        async def handle(self, reader, writer):
            line = await reader.readline()
            log.append(("call", line))
            if rng.random() < 0.7:
                keep.append((reader, writer))
            if line.startswith(b"fail"):
                raise KeyError("x")
            if line.startswith(b"slow"):
                try:
                    await asyncio.sleep(100)
                finally:
                    for _ in range(rng.randrange(3)):
                        await asyncio.sleep(0)
                    log.append(("cancelled", line))
            writer.write(b"got " + line)
            await writer.drain()
            writer.close()
            log.append(("done", line))
        if rng.random() < 0.3:
            def plain(self, reader, writer):
                return handle(self, reader, writer)
            cls = type("S", (svc.TCPServer,), {"handle_client": plain})
        else:
            cls = type("S", (svc.TCPServer,), {"handle_client": handle})
        unix = rng.random() < 0.5
        if unix:
            sock = socket.socket(socket.AF_UNIX)
            sock.bind(path)
            s = cls(sock=sock)

            def connect():
                return asyncio.open_unix_connection(path)
        else:
            # (ports of reuse_port sockets may be given to two processes)
            sock = socket.socket()
            sock.bind(("127.0.0.1", 0))
            s = cls(sock=sock)

            def connect():
                return asyncio.open_connection(s.address, s.port)
        s.set_loop(asyncio.get_running_loop())
        await s.start()

        async def one(i):
            kind = rng.choice((b"ok", b"ok", b"fail", b"slow"))
            for _ in range(rng.randrange(3)):
                await asyncio.sleep(0)
            r, w = await connect()
            line = kind + b" %d\n" % i
            w.write(line)
            if kind == b"slow":
                return line, r, w
            data = await asyncio.wait_for(r.read(), 10)
            assert data == (b"got " + line if kind == b"ok" else b""), (data, line)
            w.close()
            return line, r, w
        res = await asyncio.gather(*[one(i) for i in range(rng.randrange(6))])
        slow = [x for x in res if x[0].startswith(b"slow")]
        while sum(1 for k, l in log if k == "call") < len(res):
            await asyncio.sleep(0.001)
        t = asyncio.ensure_future(s.stop())
        await asyncio.wait([t], timeout=10)
        assert t.done(), "stopping does not end"
        t.result()
        for line, r, w in slow:
            assert ("cancelled", line) in log, "stopped before a handler has ended"
            assert await asyncio.wait_for(r.read(), 10) == b""
            w.close()
        lines = [l for k, l in log if k == "call"]
        assert sorted(lines) == sorted(x[0] for x in res), "a client was not served once: %r" % lines
        try:
            r, w = (await connect()) if unix else (None, None)
        except OSError:
            pass
        else:
            assert not unix, "a stopped server accepts a client"
    import logging
    logging.disable()
    try:
        run_real(main)
    finally:
        logging.disable(logging.NOTSET)


def fuzz_udp(rng):
    """datagrams of a real server"""
    import aiomisc.service as svc
    log = []

    async def main(d):
        async def handle(self, data, addr):
            log.append((data, addr))
            if data.startswith(b"fail"):
                raise KeyError("x")
            if data.startswith(b"slow"):
                try:
                    active.append(data)
                    await asyncio.sleep(100)
                finally:
                    if lasting:
                        await asyncio.sleep(0.002)
                    active.remove(data)
                    log.append("cancelled")
            self.sendto(b"got " + data, addr)
        active, lasting = [], rng.random() < 0.3
        cls = type("S", (svc.UDPServer,), {"handle_datagram": handle})
        sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        sock.bind(("127.0.0.1", 0))
        s = cls(sock=sock)
        s.set_loop(asyncio.get_running_loop())
        await s.start()
        c = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        try:
            c.setblocking(False)
            c.bind(("127.0.0.1", 0))
            loop = asyncio.get_running_loop()
            sent = []
            for i in range(rng.randrange(8)):
                data = rng.choice((b"ok", b"fail", b"slow", b"")) + b" %d" % rng.randrange(3)
                c.sendto(data, (s.address, s.port))
                sent.append(data)
                if rng.random() < 0.5:
                    await asyncio.sleep(0)
            for _ in range(2000):
                if len([x for x in log if x != "cancelled"]) >= len(sent):
                    break
                await asyncio.sleep(0.001)
            want = sorted(b"got " + x for x in sent if not x.startswith((b"fail", b"slow")))
            got = []
            for _ in want:
                got.append(await asyncio.wait_for(loop.sock_recv(c, 1000), 5))
            assert sorted(got) == want, (got, want)
            assert sorted(x[0] for x in log if x != "cancelled") == sorted(sent), "a datagram was not handled once"
            assert all(x[1] == c.getsockname() for x in log if x != "cancelled")
            slow = sum(1 for x in sent if x.startswith(b"slow"))
            if lasting:
                stop = loop.create_task(s.stop())
                await asyncio.sleep(0)
                c.sendto(b"slow", (s.address, s.port))
                await stop
                assert log.count("cancelled") in (slow, slow + 1), "a handler has not ended"
            else:
                await s.stop()
                assert log.count("cancelled") == slow, "a handler has not ended"
            assert not active, "a handler has not ended"
            n = len(log)
            c.sendto(b"late", (s.address, s.port))
            for _ in range(3):
                await asyncio.sleep(0)
            assert len(log) == n, "a stopped server handles datagrams"
        finally:
            c.close()
    import logging
    logging.disable()
    try:
        run_real(main)
    finally:
        logging.disable(logging.NOTSET)


REAL = ("tcp", "udp")         # real time and processes
FUZZ = [("tcp", fuzz_tcp), ("udp", fuzz_udp)]
FUZZ_S = 3
