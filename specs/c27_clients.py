"""C27: aiomisc.service.tcp and tls (clients)."""
import asyncio
import ssl

from pyvc import core, simloop
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, drive
from pyvc.load import Cut, load, need

from . import c26_servers as srv
from .c26_servers import Ctx, HERE, Task, Thing, Writer, guard

ASSUME = ["asyncio.open_connection makes one connection or raises; asyncio.sleep(t) takes t seconds",
          "TaskStoreBase.create_task keeps its contract (C25)",
          "what a robust client does when its first connection cannot be made, or when a handler returns "
          "normally, is left open (it ends)",
          "ssl.SSLContext enforces its attributes"]
BOUNDED = {}
CONTRACTS = ["TCPClient.connect, TLSClient.connect, RobustTLSClient.connect (any number of attempts, loop contract)",
             "TCPClient.__init__, TLSClient.__init__, RobustTLSClient.__init__",
             "TCPClient.start", "RobustTCPClient.start (the state before every connection after the second is the one "
             "before the second)", "SSLOptions.create_context (every combination of options of clients)"]

CLASSES = (("tcp", "TCPClient"), ("tcp", "RobustTCPClient"), ("tls", "TLSClient"), ("tls", "RobustTLSClient"))
ARGS = dict(cert="/c/cert.pem", key="/c/key.pem")


class AwaitableTask(Task):
    def __await__(self):
        try:
            v = yield from self.coro.__await__()
        except BaseException as e:
            self.finish("cancelled" if isinstance(e, asyncio.CancelledError) else "exc", e)
            raise
        self.finish("ret", v)
        return v

    def finish(self, state, value):
        self.state, self.value = state, value
        for f in list(self.cbs):
            f(self)


class World:
    pass


def world(ctx, which):
    w = World()
    tcp = load("aiomisc.service.tcp", transform=ctx.sym)
    need(tcp, "TCPClient", "RobustTCPClient", "asyncio", "log")
    w.tasks, w.soon, w.contexts = [], [], []

    class Loop:
        def create_task(self, coro, **kw):
            w.tasks.append(AwaitableTask(coro))
            return w.tasks[-1]

        async def run_in_executor(self, ex, f, *a):
            return await Suspend("executor", f, a)

        def call_soon(self, f, *a, **kw):
            w.soon.append((f, a))

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    w.loop = Loop()

    async def open_connection(*a, **kw):
        return await Suspend("open", a, kw)

    async def sleep(t, *a):
        await Suspend("sleep", t)
    ns = NS(asyncio, open_connection=open_connection, sleep=sleep, get_running_loop=lambda: w.loop,
            create_task=lambda c, **k: w.loop.create_task(c))
    tcp.asyncio = ns
    tcp.log = Sink()
    w.mod = tcp
    if which[0] == "tls":
        tls = load("aiomisc.service.tls", transform=ctx.sym, imports=(tcp,))
        need(tls, "TLSClient", "RobustTLSClient", "asyncio", "log", "ssl")
        tls.asyncio, tls.log = ns, Sink()

        def create_default_context(purpose=ssl.Purpose.SERVER_AUTH, **kw):
            w.contexts.append(Ctx(purpose, **kw))
            return w.contexts[-1]
        tls.ssl = NS(ssl, create_default_context=create_default_context)
        w.mod = tls
    w.cls = getattr(w.mod, which[1])
    return w


def make(w, which, handler=None, **kw):
    async def handle(self, reader, writer):
        pass
    dct = {"handle_connection": handler or handle, "__module__": __name__}
    dct.update({k: kw.pop(k) for k in ("connect",) if k in kw})
    if which[0] == "tls":
        kw = dict(ARGS, **kw)
    s = type("C", (w.cls,), dct)(**kw)
    s.set_loop(w.loop)
    return s


OTHER = (OSError("no route"), asyncio.TimeoutError(), ssl.SSLError("bad"), ValueError())


def connect(ctx):
    """at most connect_attempts attempts, again only after a ConnectionError
    and connect_retry_timeout; the last error is raised"""
    which = ctx.pick(CLASSES, "class")
    w = world(ctx, which)
    address, port = Thing("address"), ctx.int("port", 1)
    attempts = ctx.int("attempts", 0) if ctx.sym else ctx.choose(5, "attempts")
    pause = ctx.real("pause", 0)
    kw = {}
    if which[0] == "tls":
        w.verify = bool(ctx.choose(2, "verify"))
        if not w.verify or ctx.choose(2, "explicit"):
            kw["verify"] = w.verify
        ca = ctx.pick((None, HERE), "ca")
        if ca:
            kw["ca"] = ca
    s = make(w, which, address=address, port=port, connect_attempts=attempts, connect_retry_timeout=pause, **kw)
    ctx.check(s.address is address and bool(s.port == port), "the client knows the address")

    class G:
        n = 0
        last = None
        waited = True       # connect_retry_timeout has passed since the last failure
        over = False
        streams = error = None

    def havoc(c):
        n = c.int("attempts made", 0)
        G.n = n
        G.last = ConnectionResetError("last") if n > 0 else None
        G.waited = True

    def inv(c, in_for=True):
        out = [(G.n >= 0, "attempts are counted"), (core.disj(G.n == 0, G.waited), "the pause was made"),
               (G.n <= attempts, "attempts are left"), (not G.over, "the attempts are not over")]
        if in_for:
            out.append((c.iter_index == G.n, "one attempt for each round"))
        return out
    kw = dict(ghosts=lambda c: {"attempts": G.n, "last": G.last}, obj=lambda c, n, v: v, label="attempts")
    ctx.loops = {("for",): Cut(havoc, inv, **kw), ("while",): Cut(havoc, lambda c: inv(c, False), **kw)}

    def handler(q):
        if q.kind == "executor":
            f, a = q.args
            return Ret(f(*a))
        if q.kind == "sleep":
            if not ctx.choose(3, "cancelled"):
                G.over, G.error = True, asyncio.CancelledError()
                return Exc(G.error)
            ctx.check(not G.over, "nothing is waited for when the outcome is known")
            if G.last is not None:
                ctx.check(q.args[0] == pause, "a pause is made after a failure", q.args)
                G.waited = True
            return Ret(None)
        if q.kind != "open":
            raise core.Unsupported("connect awaits %r" % q)
        a, k = list(q.args[0]), dict(q.args[1])
        host = a.pop(0) if a else k.pop("host", None)
        prt = a.pop(0) if a else k.pop("port", None)
        ctx.check(host is address and prt is not None and bool(prt == port), "the client connects to its address", q)
        c = k.get("ssl")
        if which[0] == "tls":
            ctx.check(isinstance(c, Ctx) and c.purpose == ssl.Purpose.SERVER_AUTH and c.chains == [
                (ARGS["cert"], ARGS["key"])], "a TLS client talks TLS, with its certificate", q)
            if isinstance(c, Ctx):
                ctx.check((c.verify_mode == ssl.CERT_REQUIRED) == w.verify,
                          "a client verifies the certificate of the server", c.verify_mode)
                ctx.check(c.cas == ([ca] if ca else []), "only certificates of the CA are trusted", c.cas)
        else:
            ctx.check(c is None, "a TCP client does not talk TLS", q)
        ctx.check(not G.over, "no attempt is made when the outcome is known")
        ctx.check(G.n < attempts, "at most connect_attempts attempts are made")
        ctx.check(core.disj(G.n == 0, G.waited), "a pause is made after a failure")
        G.n = G.n + 1
        G.waited = False
        k = ctx.pick(("ok", "refused", "reset", "other", "cancelled"), "connect")
        if k == "ok":
            G.streams, G.over = (Thing("reader"), Writer()), True
            return Ret(G.streams)
        if k in ("refused", "reset"):
            G.last = (ConnectionRefusedError if k == "refused" else ConnectionResetError)(k)
            return Exc(G.last)
        G.over = True
        G.error = OTHER[ctx.choose(4, "error")] if k == "other" else asyncio.CancelledError()
        return Exc(G.error)
    st, v = drive(s.connect(), handler)
    if G.streams is not None:
        ctx.check(st == "ret" and isinstance(v, tuple) and len(v) == 2 and v[0] is G.streams[0] and
                  v[1] is G.streams[1], "the streams of the connection are given", v)
        ctx.cover("connected")
    elif G.error is not None:
        ctx.check(st == "exc" and (v is G.error or isinstance(v, asyncio.CancelledError) and
                                   isinstance(G.error, asyncio.CancelledError)), "other errors are raised at once", v)
        ctx.cover("error")
    else:
        ctx.check(st == "exc" and isinstance(v, Exception), "an error is raised when the attempts are over", v)
        ctx.check(G.n >= attempts, "all the attempts are made")
        ctx.check(G.last is None or v is G.last, "the last error is raised", v)
        ctx.cover("attempts over")
    ctx.check(all(t.done() for t in w.tasks), "nothing is left behind")


def create(ctx):
    """a client needs an address and a port"""
    which = ctx.pick(CLASSES, "class")
    w = world(ctx, which)
    kw = {}
    a = ctx.pick(("none", None, "", "h"), "address")
    p = ctx.pick(("none", None, 0, 80), "port")
    if a != "none":
        kw["address"] = a
    if p != "none":
        kw["port"] = p
    kw["more"] = more = Thing("more")
    try:
        s, err = make(w, which, **kw), None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        s, err = None, e
    good = a == "h" and p == 80
    ctx.check((err is None) == good, "a client needs an address and a port", (kw, err))
    if good:
        ctx.check(s.address == a and s.port == p and s.more is more, "the client knows the address")
        for k in ("connect_attempts", "connect_retry_timeout"):
            ctx.check(getattr(s, k) == getattr(w.cls, k), "the attempts are the ones of the class")
        ctx.cover("created")


def run_soon(w):
    while w.soon:
        f, a = w.soon.pop(0)
        f(*a)


def start(ctx):
    """a connection is handled once; a robust client connects again when
    handling it has failed"""
    which = ctx.pick(CLASSES, "class")
    robust = which[1].startswith("Robust")
    w = world(ctx, which)
    again = ctx.real("reconnect", 0)

    class G:
        connects = handled = 0
        failed = cancelled = ended = False
        streams = None
        slept = None
        key = None
        fresh = True

    async def conn(self):
        return await Suspend("connect")

    async def handle(self, *a):
        G.handled += 1
        ctx.check(self is s and len(a) == 2 and G.streams is not None and a[0] is G.streams[0] and
                  a[1] is G.streams[1], "the handler gets the streams of the connection", a)
        ctx.check(any(t in s.tasks for t in w.tasks if not t.done()), "the handler runs in a task of the service")
        return await Suspend("handle")
    kw = {"reconnect_timeout": again} if robust else {}
    s = make(w, which, handle, connect=conn, address="h", port=80, **kw)
    coro = s.start()

    def state():
        """what the next round depends on"""
        loc = dict(coro.cr_frame.f_locals) if coro.cr_frame else {}
        look = dict(("loc " + k, v) for k, v in loc.items() if k not in ("self", "__class__"))
        look.update(vars(s))
        out = []
        for k in sorted(look):
            v = look[k]
            if isinstance(v, asyncio.Event):
                v = ("event", v.is_set())
            elif isinstance(v, (Writer, Thing, AwaitableTask)):
                v = type(v).__name__
            elif isinstance(v, BaseException):
                v = "exception"
            elif isinstance(v, (set, dict, list)):
                v = ("container", len(v))
            elif k.startswith("loc vc__"):
                continue
            elif not isinstance(v, (bool, int, str, type(None))):
                v = id(v)
            out.append((k, v))
        return out

    def handler(q):
        run_soon(w)
        if q.kind == "connect":
            ctx.check(not G.ended and not G.cancelled, "a stopped client does not connect again")
            G.connects += 1
            if G.connects > 1:
                ctx.check(robust, "a client connects once")
                ctx.check(G.failed, "a client connects again only after a failure")
                ctx.check(G.slept is not None and G.slept >= again, "a client connects again after reconnect_timeout",
                          G.slept)
                ctx.cover("again")
                st = state()
                if G.key == st:
                    ctx.cover("as before")
                    ctx.stop()
                G.key = st
                if G.connects > 6:
                    raise core.Unsupported("the state before a connection depends on the ones before")
            else:
                ctx.check(not s.start_event.is_set(), "a client is ready when it is connected")
            G.failed, G.slept, G.streams = False, None, None
            k = ctx.pick(("ok", "fail", "cancel"), "connect")
            if k == "ok":
                G.streams, G.fresh = (Thing("reader"), Writer()), False
                G.handled = 0
                return Ret(G.streams)
            if k == "fail":
                G.failed = not G.fresh
                G.ended = G.fresh
                return Exc(ctx.pick((ConnectionRefusedError("x"), OSError("y")), "error"))
            G.cancelled = True
            return Exc(asyncio.CancelledError())
        if q.kind == "handle":
            ctx.check(G.handled == 1, "a connection is handled once")
            ctx.check(s.start_event.is_set(), "a client is ready when it is connected")
            k = ctx.pick(("ret", "fail", "cancel"), "handle")
            if k == "ret":
                G.ended = not robust
                G.normal = True
                G.failed = robust       # (may go on as well)
                return Ret(None)
            if k == "cancel":
                G.cancelled = True
                return Exc(asyncio.CancelledError())
            G.failed = True
            G.normal = False
            G.ended = not robust
            return Exc(ctx.pick((ConnectionResetError("x"), KeyError("y")), "error"))
        if q.kind == "sleep":
            if not ctx.choose(3, "cancelled"):
                G.cancelled = True
                return Exc(asyncio.CancelledError())
            G.slept = q.args[0] if G.slept is None else G.slept + q.args[0]
            return Ret(None)
        raise core.Unsupported("start awaits %r" % q)
    G.normal = False
    st, v = drive(coro, handler)
    run_soon(w)
    if G.streams is not None:
        ctx.check(G.handled == 1, "a connection is handled once")
    if G.cancelled:
        if not G.fresh:
            ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancelled client is cancelled", (st, v))
        ctx.cover("cancelled")
    elif G.fresh:
        if not robust:
            ctx.check(st == "exc" and isinstance(v, OSError), "a client fails if it cannot connect", (st, v))
        ctx.check(not s.start_event.is_set(), "a client is ready when it is connected")
        ctx.cover("no connection")
    else:
        ctx.check(st == "ret", "a failing handler does not make the client fail", v)
        if robust:
            ctx.check(G.normal, "a robust client connects again after a failure")
        ctx.cover("ended")
    ctx.check(all(t.done() for t in w.tasks), "nothing is left behind")


def tls_context(ctx):
    """an SSL context has the options of the client"""
    srv.tls_context(ctx, server=False)


HARNESSES = [(h.__name__, guard(h)) for h in (create, connect, start, tls_context)]


class Quit(Exception):
    pass


def fuzz_client(rng):
    """a client on virtual time, whose connections and handlers come and fail
    at random"""
    import aiomisc.service.tcp as tcp
    robust = rng.random() < 0.7
    cls = tcp.RobustTCPClient if robust else tcp.TCPClient
    attempts = rng.choice((1, 2, 3, 5))
    pause = rng.choice((0, 0.5, 1, 3))
    again = rng.choice((0.25, 1, 5))
    log = []
    depth = [0]
    p_ok = rng.choice((0.3, 0.7, 0.95))
    p_fail = rng.choice((0.5, 0.9, 1))

    async def main(loop):
        async def open_connection(host, port, **kw):
            log.append((loop.time(), "try", (host, port)))
            await asyncio.sleep(rng.choice((0, 0, 0.1)))
            if rng.random() < p_ok:
                st = (object(), object())
                log.append((loop.time(), "connected", st))
                return st
            e = rng.choice((ConnectionRefusedError, ConnectionResetError, ConnectionAbortedError,
                            BrokenPipeError, ConnectionError))() \
                if rng.random() < 0.95 else rng.choice((OSError, asyncio.TimeoutError, ValueError))()
            log.append((loop.time(), "no", e))
            raise e

        async def handle(self, *a):
            depth[0] += 1
            assert depth[0] == 1, "two connections at once"
            log.append((loop.time(), "handle", a))
            try:
                assert c.start_event.is_set() or not robust
                await asyncio.sleep(rng.choice((0, 0, 1, 2)))
                if rng.random() < p_fail:
                    e = rng.choice((ConnectionResetError, KeyError, asyncio.IncompleteReadError))
                    log.append((loop.time(), "failed", None))
                    raise e(b"", 1) if e is asyncio.IncompleteReadError else e()
                log.append((loop.time(), "over", None))
            finally:
                depth[0] -= 1
        C = type("C", (cls,), {"handle_connection": handle})
        kw = dict(reconnect_timeout=again) if robust else {}
        c = C(address="h", port=5, connect_attempts=attempts, connect_retry_timeout=pause, **kw)
        c.set_loop(loop)
        old = asyncio.open_connection
        asyncio.open_connection = open_connection
        try:
            t = loop.create_task(c.start())
            end = rng.choice((3, 10, 30, 60)) + 0.013
            how = rng.choice(("cancel", "stop"))
            await asyncio.wait([t], timeout=end)
            early = t.done()
            ready = c.start_event.is_set()
            n = len(log)
            if how == "stop":
                s = loop.create_task(c.stop())
                await asyncio.sleep(0)
            t.cancel()
            await asyncio.wait([t], timeout=100)
            assert t.done(), "a cancelled client goes on"
            assert not any(k in ("try", "handle") for _, k, _ in log[n:]), "a cancelled client connects again"
            if how == "stop":
                await s
            assert not c.tasks or all(x.done() for x in c.tasks)
        finally:
            asyncio.open_connection = old
        ev = log[:n]
        group = 0
        ever = False
        for i, (at, k, x) in enumerate(ev):
            prev = ev[i - 1] if i else None
            if k == "try":
                assert x == ("h", 5)
                assert prev is None or prev[1] in ("no", "failed", "over"), prev
                if prev is not None and prev[1] == "no":
                    d = at - prev[0]
                    new = group == attempts or not isinstance(prev[2], ConnectionError)
                    if new:
                        assert robust and ever, "connected again after the last attempt"
                        assert d >= again - 1e-6, "connected again too early"
                        group = 0
                    else:
                        assert pause - 1e-6 <= d <= pause + 1e-3 or \
                            (d <= pause + again), "a pause of %r seconds" % d
                        assert d >= pause - 1e-6
                elif prev is not None:
                    assert robust, "a client connects once"
                    assert at - prev[0] >= again - 1e-6, "connected again too early"
                    if prev[1] == "failed":
                        assert at - prev[0] <= again + 1e-3, "connected again too late"
                    group = 0
                group += 1
            elif k == "connected":
                ever = True
                assert early or ready or i >= n - 2
            elif k == "handle":
                assert prev[1] == "connected" and len(x) == 2 and x[0] is prev[2][0] and x[1] is prev[2][1], \
                    "not the streams of the connection"
        if early:
            last = ev[-1]
            if last[1] == "no" and not robust:
                assert t.exception() is last[2], "not the last error: %r" % t
                assert group == attempts or not isinstance(last[2], ConnectionError), "not all attempts were made"
            elif last[1] == "no":
                assert not ever, "a robust client gave up"
            elif last[1] == "failed":
                assert not robust and t.exception() is None, "a robust client gave up"
            else:
                assert last[1] == "over" and t.exception() is None, (last, t)
        assert ready == ever or ev[-1][1] == "connected", "ready: %r, connected: %r" % (ready, ever)
    import logging
    logging.disable()
    try:
        simloop.run(main)
    finally:
        logging.disable(logging.NOTSET)


FUZZ = [("client", fuzz_client)]
FUZZ_S = 3
