"""C30: services which run something again and again: PeriodicService,
CronService, SDWatchdogService, MemoryTracer, Profiler and CarbonSender."""
import asyncio
import cProfile
import io
import os
import pstats
import socket
import tempfile
import tracemalloc
import types

from pyvc import core, simloop
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, close_coro, drive
from pyvc.load import load, need

from .c26_servers import Thing, guard

ASSUME = ["PeriodicCallback and CronCallback keep their contracts (C20), threaded runs its function in a thread (C16)",
          "the entrypoint calls its signals around start and stop, each once (C07)",
          "loop.sock_sendall sends one datagram or raises an OSError",
          "croniter.is_valid tells what a cron spec is",
          "a notify socket which cannot be connected to is left open, and so is READY=1 when a service failed to start",
          "what pstats and tracemalloc report is right"]
BOUNDED = {"cron": "up to two registered functions",
           "watchdog": "one failing datagram",
           "carbon": "the namespaces are taken from a list"}
CONTRACTS = ["PeriodicService.__init__/start/stop (any interval and delay)", "CronService.register/start/stop",
             "SDWatchdogService.__init__/connect/send/start/stop/disconnect, setup() and its four signal handlers",
             "CarbonSender.start/stop",
             "MemoryTracer.start/show_stats/log_diff/stop", "Profiler.start/save_stats/stop"]


class World:
    pass


def callbacks(ctx, w):
    """contract of PeriodicCallback and CronCallback"""
    w.made = []

    class Callback:
        def __init__(self, f, *a, **k):
            self.name = k.pop("name", None)
            self.f = lambda: f(*a, **k)
            self.func = f
            self.running, self.starts, self.opts, self.waited = False, 0, None, 0
            w.made.append(self)

        def start(self, every, loop=None, *, delay=0, shield=False, suppress_exceptions=()):
            if self.running:
                raise asyncio.InvalidStateError
            self.running = True
            self.starts += 1
            self.every, self.loop, self.delay = every, loop, delay
            self.shield, self.suppress = shield, suppress_exceptions

        def stop(self, return_exceptions=False):
            was, self.running = self.running, False
            return Stopped(self, was, return_exceptions)

    class Stopped:
        def __init__(self, cb, was, quiet):
            self.cb, self.was, self.quiet = cb, was, quiet

        def __await__(self):
            r = yield Suspend("stopped", self)
            return r
    return Callback


def ended(ctx, w, q):
    """awaits of a stopped callback"""
    s = q.args[0]
    s.cb.waited += 1
    if not s.was:
        e = RuntimeError("Callback not started")
    else:
        e = ctx.pick((asyncio.CancelledError(), None, KeyError("failed")), "ends")
    if s.quiet or e is None:
        return Ret([e])
    return Exc(e)


class Loop:
    def __init__(self, **known):
        self.__dict__.update(known)

    def __getattr__(self, name):
        raise core.Unsupported("loop.%s" % name)


def threads():
    """stands for aiomisc.thread_pool"""
    m = types.ModuleType("aiomisc.thread_pool")

    def threaded(f):
        async def wrap(*a, **k):
            return await Suspend("thread", f, a, k)
        wrap.threaded = True
        return wrap
    m.threaded = threaded
    return m


def run(q):
    f, a, k = q.args
    try:
        return Ret(f(*a, **k))
    except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
        raise
    except Exception as e:
        return Exc(e)


def periodic(ctx):
    """start runs the callback each interval, after the delay; stop ends it"""
    w = World()
    mod = load("aiomisc.service.periodic", transform=ctx.sym)
    need(mod, "PeriodicService", "PeriodicCallback", "log")
    mod.PeriodicCallback, mod.log = callbacks(ctx, w), Sink()
    calls = []

    class S(mod.PeriodicService):
        async def callback(self):
            calls.append(self)
            return 5
    kw = {}
    interval, delay = ctx.real("interval"), 0
    if ctx.choose(2, "delay"):
        delay = kw["delay"] = ctx.real("delay", 0)
    name = ctx.pick((None, "worker"), "name")
    if name:
        kw["name"] = name
    if not ctx.choose(4, "no interval"):
        try:
            S(**kw)
            ctx.check(False, "a periodic service has an interval")
        except (AttributeError, TypeError):
            ctx.cover("no interval")
        return
    if ctx.choose(2, "extra"):
        extra = kw["extra"] = Thing("extra")
    else:
        extra = None
    s = S(interval=interval, **kw)
    ctx.check(extra is None or s.extra is extra, "the arguments are attributes")
    ctx.check(not name or s.name == name, "a service has the name it was given", getattr(s, "name", None))
    loop = Loop()
    s.set_loop(loop)

    def handler(q):
        if q.kind != "stopped":
            raise core.Unsupported("await on %r" % q)
        return ended(ctx, w, q)
    for n in range(2):
        st, v = drive(s.start(), handler)
        on = [c for c in w.made if c.running]
        if not bool(interval > 0):
            ctx.check(st == "exc" and isinstance(v, Exception), "an interval which is not positive is refused", interval)
            ctx.check(not on, "nothing runs when the start is refused")
            ctx.cover("refused")
        else:
            ctx.check(st == "ret", "start succeeds", v)
            ctx.check(len(on) == 1, "one periodic callback runs", len(on))
            if len(on) != 1:
                return
            c = on[0]
            ctx.check(c.every == interval, "the callback runs each interval")
            ctx.check(c.delay == delay, "the first run is after the delay")
            ctx.check(c.loop in (None, loop), "it runs in the loop of the service")
            ctx.check(not name or c.name == name, "the callback has the name of the service", c.name)
            del calls[:]
            r = drive(c.f(), handler)
            ctx.check(r[0] == "ret" and calls == [s], "the callback of the service is run", r)
            ctx.cover("started")
        before = w.made[0].waited if w.made else 0
        was = list(on)
        st, v = drive(s.stop(ctx.pick((None, KeyError("x")), "error")), handler)
        ctx.check(st == "ret", "stop does not fail", v)
        ctx.check(not any(c.running for c in w.made), "stop ends the callback")
        if was:
            ctx.check(was[0].waited > before, "stop waits for the callback")
        ctx.cover("stopped")


def ns(item):
    """a component of a carbon namespace"""
    out = ""
    for ch in item:
        if ch.isalnum() or ch in "_-":
            out += ch
        elif not out.endswith("\0"):
            out += "\0"
    return out.replace("\0", "_").strip("_").lower()


NAMESPACES = ((), ("",), ("app",), ("My App", "host.example.com"), ["a", "__b__", "c-1"], ("\u00c4 b//c", "x"))


def carbon(ctx):
    """one client for the address is made known and sends each interval, until
    stop"""
    w = World()
    try:
        mod = load("aiomisc.service.carbon", transform=ctx.sym)
    except ImportError:
        raise core.Unsupported("aiocarbon is missing")
    need(mod, "CarbonSender", "PeriodicCallback", "set_client", "PROTOCOLS", "TotalStorage", "log")
    mod.PeriodicCallback, mod.log = callbacks(ctx, w), Sink()
    clients, known = [], []

    class Client:
        def __init__(self, host, port=2003, loop=None, storage=None, namespace=None):
            self.host, self.port, self.loop, self.storage, self.namespace = host, port, loop, storage, namespace
            self.sent = 0
            clients.append(self)

        async def send(self):
            self.sent += 1
    kinds = {n: type(n, (Client,), {}) for n in mod.PROTOCOLS}
    ctx.check({"udp", "tcp", "pickle"} <= set(kinds), "the protocols are known", sorted(kinds))
    mod.PROTOCOLS = types.MappingProxyType(kinds)
    mod.set_client = known.append

    class Storage:
        pass
    kw = {}
    proto = ctx.pick((None, "udp", "tcp", "pickle", "smoke"), "protocol")
    if proto:
        kw["protocol"] = proto
    space = NAMESPACES[ctx.choose(len(NAMESPACES), "namespace")]
    if ctx.choose(2, "namespace given"):
        kw["namespace"] = space
    else:
        space = ("",)
    host, port, every = "127.0.0.1", 2003, 5
    if ctx.choose(2, "options given"):
        host = kw["host"] = "host.example"
        port = kw["port"] = ctx.int("port", 1)
        every = kw["send_interval"] = ctx.real("interval", 0)
        kw["storage"] = Storage
    s = mod.CarbonSender(**kw)
    loop = Loop()
    s.set_loop(loop)

    def handler(q):
        if q.kind != "stopped":
            raise core.Unsupported("await on %r" % q)
        return ended(ctx, w, q)
    if ctx.choose(2, "never started"):
        st, v = drive(s.stop(), handler)
        ctx.check(st == "ret", "stop does not fail only because the service was not started", v)
        return
    st, v = drive(s.start(), handler)
    if proto == "smoke":
        ctx.check(st == "exc" and isinstance(v, Exception) and not isinstance(v, AttributeError), "an unknown protocol is refused", v)
        ctx.check(not clients and not w.made and not known, "nothing runs when the start is refused")
        st, v = drive(s.stop(), handler)
        ctx.check(st == "ret", "stop does not fail only because the service was not started", v)
        ctx.cover("refused")
        return
    ctx.check(st == "ret", "start succeeds", v)
    ctx.check(len(clients) == 1 and known == clients, "one client is made and made known")
    c = clients[0]
    ctx.check(type(c) is kinds[proto or "udp"], "it talks the given protocol")
    ctx.check(c.host == host and bool(c.port == port), "to the given host and port", (c.host, c.port))
    ctx.check(c.namespace == ".".join(ns(x) for x in space), "in the given namespace", c.namespace)
    ctx.check(isinstance(c.storage, kw.get("storage", mod.TotalStorage)), "with a storage of the given kind")
    ctx.check(c.loop in (None, loop), "in the loop of the service")
    on = [x for x in w.made if x.running]
    ctx.check(len(on) == 1, "one periodic callback runs", len(on))
    on = on[0]
    ctx.check(bool(on.every == every) and not on.delay and on.loop in (None, loop), "it runs every send_interval", on.every)
    r = drive(on.f(), handler)
    ctx.check(r[0] == "ret" and c.sent == 1, "which sends the metrics")
    st, v = drive(s.stop(ctx.pick((None, KeyError("x")), "error")), handler)
    ctx.check(st == "ret", "stop does not fail", v)
    ctx.check(not on.running and on.waited, "stop ends sending and waits for it")
    ctx.cover("sent")


SPECS = ("* * * * *", "*/5 2 * * *", "0 0 1 1 * */10")


def cron(ctx):
    """every registered function is run by its spec, from start to stop"""
    w = World()
    mod = load("aiomisc.service.cron", transform=ctx.sym)
    need(mod, "CronService", "CronCallback", "log")
    base = callbacks(ctx, w)

    class Callback(base):
        def start(self, spec, loop=None, *, shield=False, suppress_exceptions=()):
            base.start(self, spec, loop, shield=shield, suppress_exceptions=suppress_exceptions)
    mod.CronCallback, mod.log = Callback, Sink()

    class Boom(Exception):
        pass
    s = mod.CronService()
    want, calls = [], []

    def make(i):
        async def f():
            calls.append(i)
            return i
        return f
    if not ctx.choose(4, "illegal"):
        n = 0
        what = ctx.pick(("function", "spec", "short"), "illegal what")

        def sync():
            pass
        try:
            if what == "function":
                s.register(sync, SPECS[0])
            else:
                s.register(make(0), "every day" if what == "spec" else "* * *")
            ctx.check(False, "only coroutine functions and valid specs are registered", what)
        except (TypeError, ValueError):
            ctx.cover("illegal " + what)
    else:
        n = ctx.choose(3, "functions")
    same = make(0)
    for i in range(n):
        f = same if i and ctx.choose(2, "the same function") else make(i)
        if i == 0:
            f = same
        spec = SPECS[ctx.choose(2, "spec")]
        kw = {}
        how = ctx.pick(("", "shield", "suppress"), "options")
        if how == "shield":
            kw["shield"] = True
        if how == "suppress":
            kw["suppress_exceptions"] = (Boom,)
        r = s.register(f, spec, **kw)
        want.append((f, spec, kw.get("shield", False), kw.get("suppress_exceptions", ())))
    ctx.check(not any(c.running for c in w.made), "nothing runs before the start")

    def key(x):
        return (id(x[0]), x[1], bool(x[2]), len(x[3]))

    async def main(loop):
        bad = []
        futs = []
        for c in w.made:
            def stop(c=c):
                c.running = False
                c.stops = getattr(c, "stops", 0) + 1
                f = loop.create_future()
                futs.append(f)
                return f
            c.stop = stop
        s.set_loop(loop)
        await s.start()
        on = [c for c in w.made if c.running]
        got = sorted(key((c.func, c.every, c.shield, tuple(c.suppress))) for c in on)
        if got != sorted(map(key, want)):
            bad.append("each registered function is started once, with its spec and options: %r" % got)
        for c in on:
            if c.loop not in (None, loop):
                bad.append("it runs in the loop of the service")
        t = loop.create_task(s.stop(None))
        for _ in range(5):
            await asyncio.sleep(0)
        if any(c.running for c in w.made):
            bad.append("stop stops every function")
        order = list(futs)
        if order and first:
            order.reverse()
        for i, f in enumerate(order):
            if t.done():
                bad.append("stop waits for every function")
            if hows[i] == "cancel":
                f.cancel()
            elif hows[i] == "fail":
                f.set_exception(Boom())
            else:
                f.set_result(None)
            for _ in range(5):
                await asyncio.sleep(0)
            # (refactorings may stop one after the other)
            for g in futs:
                if g not in order:
                    order.append(g)
        for _ in range(20):
            await asyncio.sleep(0)
        if not t.done():
            bad.append("stop ends when every function has ended")
            t.cancel()
            return bad
        if t.cancelled():
            bad.append("stop is not cancelled by its functions")
        elif t.exception():
            bad.append("stop does not fail: %r" % t.exception())
        return bad
    first = ctx.choose(2, "order") if n > 1 else 0
    hows = [ctx.pick(("cancel", "fail", "return"), "ends") for _ in range(n)]
    bad = simloop.run(main)
    ctx.check(not bad, bad[0] if bad else "every function is started and stopped")
    ctx.cover("%d functions" % n)


class Env:
    """environment variables while something runs"""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {n: os.environ.get(n) for n in self.kw}
        self.set(self.kw)

    def __exit__(self, *a):
        self.set(self.old)

    def set(self, kw):
        for n, v in kw.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v


class Sig:
    def __init__(self):
        self.receivers = []

    def connect(self, f):
        self.receivers.append(f)
        return f


def wired(mod):
    """what setup() connects to the signals of the entrypoint"""
    ep = types.ModuleType("aiomisc.entrypoint")

    class Entrypoint:
        PRE_START, POST_START, PRE_STOP, POST_STOP = Sig(), Sig(), Sig(), Sig()
    ep.Entrypoint = ep.entrypoint = Entrypoint
    import sys
    old = sys.modules.get("aiomisc.entrypoint")
    sys.modules["aiomisc.entrypoint"] = ep
    try:
        mod.setup()
    finally:
        if old is not None:
            sys.modules["aiomisc.entrypoint"] = old
        else:
            del sys.modules["aiomisc.entrypoint"]
    return Entrypoint


def watchdog(ctx):
    """what a watchdog service tells systemd, and when"""
    w = World()
    addr = ctx.pick((None, "/run/notify", "@abstract", ""), "NOTIFY_SOCKET")
    usec = ctx.pick((None, "30000000"), "WATCHDOG_USEC")
    with Env(NOTIFY_SOCKET=addr, WATCHDOG_USEC=usec):
        mod = load("aiomisc.service.sdwatchdog", transform=ctx.sym, fresh=True, imports=(threads(),))
        need(mod, "SDWatchdogService", "PeriodicCallback", "log", "setup", "socket", "get_current_loop", "os")
        mod.PeriodicCallback, mod.log = callbacks(ctx, w), Sink()
        given = ctx.pick(("environment", None, 30, "any"), "interval") if addr else "environment"
        if given == "any":
            given = ctx.real("interval", 0)
            ctx.assume(given > 0)
        s = mod.SDWatchdogService(**({} if given == "environment" else {"watchdog_interval": given}))
        other = mod.SDWatchdogService.__mro__[1]    # any service

        class Other(other):
            async def start(self):
                pass
        other = Other()
    env = None if usec is None else 30
    interval = env if given == "environment" else given
    socks, sent = [], []
    w.fails = ctx.choose(8, "failing datagram") if addr else 0

    class Socket:
        def __init__(self, family=-1, type=-1, *a, **k):
            self.kind, self.addr, self.closed, self.blocking = (family, type), None, False, True
            socks.append(self)

        def connect(self, a):
            ctx.check(self.addr is None, "the socket is connected once")
            self.addr = a

        def setblocking(self, f):
            self.blocking = bool(f)

        def settimeout(self, t):
            self.blocking = t != 0

        def close(self):
            self.closed = True

        def fileno(self):
            return 99

    async def sendall(sock, data):
        return await Suspend("send", sock, data)
    loop = Loop(sock_sendall=sendall)
    mod.socket = NS(socket, socket=Socket)
    mod.get_current_loop = lambda: loop
    mod.os = NS(os, getenv=lambda *a: None)
    ep = wired(mod)
    where = ["start"]

    def handler(q):
        if q.kind == "thread":
            return run(q)
        if q.kind == "stopped":
            return ended(ctx, w, q)
        if q.kind != "send":
            raise core.Unsupported("await on %r" % q)
        sock, data = q.args
        ctx.check(socks and sock is socks[0] and not sock.closed and sock.addr is not None,
                  "it is sent to the connected socket")
        ctx.check(not sock.blocking, "the event loop is not blocked")
        ctx.check(isinstance(data, bytes), "bytes are sent")
        sent.append((where[0], bytes(data).decode()))
        if w.fails and len(sent) == w.fails:
            e = ctx.pick((ConnectionRefusedError(), FileNotFoundError(), BlockingIOError()), "error")
            return Exc(e)
        return Ret(None)

    def call(sig, *services):
        for f in list(sig.receivers):
            st, v = drive(f(entrypoint=None, services=services), handler)
            ctx.check(st == "ret", "the application does not see errors of the socket", v)

    def check(c, name):
        ctx.check(c, name, sent)

    def has(what, at=None):
        return [x for x in sent if x[1] == what and at in (None, x[0])]
    services = ctx.pick(((s,), (other, s)), "services")
    call(ep.PRE_START, *services)
    if addr:
        check(len(socks) == 1, "one socket is made")
        if len(socks) != 1:
            return
        k = socks[0]
        check(k.kind == (socket.AF_UNIX, socket.SOCK_DGRAM), "it is a unix datagram socket")
        check(k.addr == ("\0abstract" if addr[0] == "@" else addr), "it is connected to NOTIFY_SOCKET")
    s.set_loop(loop)
    where[0] = "starting"
    st, v = drive(s.start(), handler)
    ctx.check(st == "ret", "start succeeds", v)
    check(not has("READY=1"), "READY=1 is not sent before the services are started")
    where[0] = "started"
    call(ep.POST_START, *services)
    if not addr:
        check(not socks and not sent, "nothing is sent without NOTIFY_SOCKET")
        check(not any(c.running for c in w.made), "nothing runs without NOTIFY_SOCKET")
    else:
        check(len(has("READY=1", "started")) == 1, "READY=1 is sent when the services are started")
    on = [c for c in w.made if c.running]
    check(len(on) == (1 if addr and interval is not None else 0), "the watchdog is fed if there is an interval")
    told = [x for x in sent if x[1].startswith("WATCHDOG_USEC=")]
    if addr and interval is not None and interval != env:
        check(len(told) == 1, "systemd is told an interval which is not its own")
        if told:
            try:
                t = int(told[0][1].split("=", 1)[1])
            except ValueError:
                t = core.formatted(told[0][1].split("=", 1)[1])
            check(t is not None and t - interval * 1000000 <= 1 and interval * 1000000 - t <= 1,
                  "systemd is told the interval in microseconds")
    else:
        check(not told, "systemd is not told an interval which is its own")
    if on:
        c = on[0]
        check(0 < c.every <= interval / 2, "the watchdog is fed twice each interval")
        check(0 <= c.delay <= interval / 2, "the watchdog is fed from the start")
        where[0] = "running"
        for _ in range(2):
            n = len(sent)
            st, v = drive(c.f(), handler)
            ctx.check(st == "ret", "the application does not see errors of the socket", v)
            check([x[1] for x in sent[n:]] == ["WATCHDOG=1"], "WATCHDOG=1 is sent each time")
    # services which come and go do not concern the watchdog
    if ctx.choose(2, "others"):
        n = len(sent)
        for g in (ep.PRE_START, ep.POST_START, ep.PRE_STOP, ep.POST_STOP):
            call(g, other)
        check(len(sent) == n and not any(k.closed for k in socks), "other services do not concern the watchdog")
    where[0] = "stopping"
    call(ep.PRE_STOP, *services)
    st, v = drive(s.stop(None), handler)
    ctx.check(st == "ret", "stop does not fail", v)
    check(not any(c.running for c in w.made), "a stopped service does not feed the watchdog")
    for c in on:
        check(c.waited > 0, "stop waits for the last datagram")
    where[0] = "stopped"
    call(ep.POST_STOP, *services)
    if addr:
        check(len(has("STOPPING=1")) == 1, "STOPPING=1 is sent once")
        check(len(has("READY=1")) == 1, "READY=1 is sent once")
        check(all(k.closed for k in socks), "the socket is closed")
        i = [x[1] for x in sent]
        check("READY=1" not in i or "STOPPING=1" not in i or i.index("READY=1") < i.index("STOPPING=1"), "the order")
        n = len(sent)
        st, v = drive(s.send("X=1"), handler)
        check(st == "ret" and len(sent) == n, "nothing is sent when the socket is closed")
    else:
        check(not socks and not sent, "nothing is sent without NOTIFY_SOCKET")
    known = ("READY=1", "STOPPING=1", "WATCHDOG=1")
    check(all(x[1] in known or x[1].startswith(("WATCHDOG_USEC=", "STATUS=")) for x in sent), "what systemd understands")
    ctx.cover("%s %s" % ("socket" if addr else "no socket", "fed" if on else "not fed"))


def tracer(ctx):
    """reports each interval, from start to stop"""
    w = World()
    mod = load("aiomisc.service.tracer", transform=ctx.sym, fresh=True, imports=(threads(),))
    need(mod, "MemoryTracer", "PeriodicCallback", "log", "tracemalloc", "GroupBy")
    mod.PeriodicCallback, mod.log = callbacks(ctx, w), Sink()
    state = [0]
    snaps, lines = [], []

    class Stat:
        def __init__(self, i):
            self.count, self.count_diff, self.size, self.size_diff = 4 + i, 2, 10000 * (i + 1), 10
            self.traceback = "<line %d>" % i

    class Snap:
        def __init__(self):
            snaps.append(self)

        def compare_to(self, old, by, *a):
            ctx.check(old is snaps[0] and self is snaps[-1] and self is not old, "the memory is compared to that at the start")
            ctx.check(by == group, "statistics are grouped as told", by)
            return stats

    def start(*a):
        state[0] += 1

    def stop():
        state[0] = 0

    def snapshot():
        ctx.check(state[0] > 0, "snapshots are taken while memory is traced")
        return Snap()
    mod.tracemalloc = NS(tracemalloc, start=start, stop=stop, take_snapshot=snapshot, is_tracing=lambda: state[0] > 0)
    stats = [Stat(i) for i in range(ctx.choose(4, "differences"))]
    top = ctx.pick((1, 2, 20), "top")
    interval = ctx.real("interval", 0)
    ctx.assume(interval > 0)
    by = ctx.pick(tuple(mod.GroupBy), "group")
    group = by.value
    s = mod.MemoryTracer(interval=interval, top_results=top, group_by=by, logger=lambda f, *a: lines.append(f % a))
    s.set_loop(Loop())

    def handler(q):
        if q.kind == "stopped":
            return ended(ctx, w, q)
        if q.kind == "thread":
            return run(q)
        raise core.Unsupported("await on %r" % q)
    st, v = drive(s.start(), handler)
    ctx.check(st == "ret", "start succeeds", v)
    on = [c for c in w.made if c.running]
    ctx.check(state[0] > 0 and len(snaps) == 1, "the memory is traced from the start")
    ctx.check(len(on) == 1 and on[0].every == interval, "it reports each interval")
    if len(on) != 1:
        return
    for i in range(2):
        r = on[0].f()
        if hasattr(r, "__await__"):
            ctx.check(getattr(on[0].func, "threaded", True), "snapshots are compared in a thread")
            st, v = drive(r, handler)
            ctx.check(st == "ret", "a report does not fail", v)
        ctx.check(len(lines) == i + 1, "each report is logged", lines)
        if len(lines) != i + 1:
            return
        text = lines[-1]
        for k, x in enumerate(stats):
            ctx.check((x.traceback in text) == (k < top), "the first top_results differences are reported", text)
    st, v = drive(s.stop(ctx.pick((None, KeyError("x")), "error")), handler)
    ctx.check(st == "ret", "stop does not fail", v)
    ctx.check(not any(c.running for c in w.made), "nothing is reported after stop")
    ctx.check(state[0] == 0, "nothing is traced after stop")
    ctx.cover("end")


def profiler(ctx):
    """reports each interval, from start to stop"""
    w = World()
    mod = load("aiomisc.service.profiler", transform=ctx.sym)
    need(mod, "Profiler", "PeriodicCallback", "cProfile", "Stats")
    mod.PeriodicCallback = callbacks(ctx, w)
    lines, dumps, profs = [], [], []

    class Profile:
        def __init__(self, *a, **k):
            self.on = False
            profs.append(self)

        def enable(self, *a, **k):
            self.on = True

        def disable(self):
            self.on = False

        def create_stats(self):
            self.on = False

    class Stats:
        def __init__(self, p, stream=None):
            ctx.check(p is profs[-1], "the profile of the service is reported")
            p.on = False
            self.stream = stream

        def strip_dirs(self):
            return self

        def sort_stats(self, *a):
            ctx.check(a == (order,), "sorted as told", a)
            return self

        def print_stats(self, *a):
            ctx.check(a == (top,), "the first top_results lines are reported", a)
            self.stream.write("REPORT")
            return self

        def dump_stats(self, path):
            dumps.append(path)
            if fails:
                raise OSError("no space left")
    mod.cProfile, mod.Stats = NS(cProfile, Profile=Profile), Stats

    class Log(Sink):
        def getChild(self, *a):
            return self

        def info(self, f, *a):
            lines.append(f % a if a else f)
    path = ctx.pick((None, "/nowhere/profile"), "path")
    fails = bool(path) and bool(ctx.choose(2, "dump fails"))
    order, top = ctx.pick(("cumulative", "time"), "order"), ctx.pick((10, 3), "top")
    interval = ctx.real("interval", 0)
    ctx.assume(interval > 0)
    s = mod.Profiler(interval=interval, top_results=top, order=order, log=Log(), **({"path": path} if path else {}))
    s.set_loop(Loop())

    def handler(q):
        if q.kind == "stopped":
            return ended(ctx, w, q)
        raise core.Unsupported("await on %r" % q)
    st, v = drive(s.start(), handler)
    ctx.check(st == "ret", "start succeeds", v)
    on = [c for c in w.made if c.running]
    ctx.check(len(on) == 1 and on[0].every == interval, "it reports each interval")
    ctx.check(len(profs) == 1 and profs[0].on, "it profiles from the start")
    if len(on) != 1 or len(profs) != 1:
        return
    for i in range(2):
        n = len([x for x in lines if "REPORT" in x])
        try:
            r = on[0].f()
            if hasattr(r, "__await__"):
                st, v = drive(r, handler)
                if st == "exc":
                    raise v
        except OSError:
            ctx.check(fails, "a report does not fail")
        ctx.check(len([x for x in lines if "REPORT" in x]) == n + 1, "each report is logged", lines)
        ctx.check(len(dumps) == (i + 1 if path else 0) and all(d == path for d in dumps), "the profile is stored if it is told where",
                  dumps)
        ctx.check(profs[0].on and len(profs) == 1, "it goes on after a report")
    st, v = drive(s.stop(ctx.pick((None, KeyError("x")), "error")), handler)
    ctx.check(st == "ret", "stop does not fail", v)
    ctx.check(not any(c.running for c in w.made), "nothing is reported after stop")
    ctx.check(on[0].waited > 0, "stop waits for the report")
    ctx.check(not profs[0].on, "nothing is profiled after stop")
    ctx.cover("end")


HARNESSES = [(h.__name__, guard(h)) for h in (periodic, cron, watchdog, tracer, profiler, carbon)]


# ------------------------------------------------------------- executions

def fuzz_periodic(rng):
    """periodic and cron services on virtual time"""
    import aiomisc
    from aiomisc.service.periodic import PeriodicService

    async def main(loop):
        runs, active = [], [0]
        took = rng.choice((0, 0, 0.3, 2.5))
        interval, delay = rng.choice((0.5, 1, 2)), rng.choice((0, 0, 0.25, 3))
        fails = rng.random() < 0.3

        class S(PeriodicService):
            async def callback(self):
                assert active[0] == 0, "two runs at once"
                active[0] += 1
                runs.append(loop.time())
                try:
                    await asyncio.sleep(took)
                    if fails:
                        raise KeyError("x")
                finally:
                    active[0] -= 1
        name = rng.choice((None, "a"))
        kw = {} if name is None else {"name": name}
        if rng.random() < 0.5:
            kw["delay"] = delay
        else:
            delay = 0
        s = S(interval=interval, **kw)
        assert name is None or s.name == name
        for _ in range(rng.randint(1, 2)):
            del runs[:]
            s.set_loop(loop)
            await s.start()
            t0 = loop.time()
            await asyncio.sleep(20)
            assert runs and abs(runs[0] - t0 - delay) < 1e-6, "the first run is %r after the start" % (runs[0] - t0)
            for a, b in zip(runs, runs[1:]):
                assert abs(b - a - took - interval) < 1e-6, "runs are %r apart" % (b - a)
            assert len(runs) >= int((20 - delay) / (took + interval)), "%d runs" % len(runs)
            await asyncio.sleep(rng.random())
            await s.stop(None)
            n = len(runs)
            assert active[0] == 0, "a run goes on"
            await asyncio.sleep(20)
            assert len(runs) == n, "a run after the stop"
    simloop.run(main)


def fuzz_cron(rng):
    """a cron service with several functions"""
    import aiomisc.cron
    from aiomisc.service.cron import CronService
    from datetime import datetime, timezone

    async def main(loop):
        runs, active, errors = [], [0], []
        s = CronService()
        specs = []
        # a virtual wall clock
        class Clock:
            @staticmethod
            def now(tz=None):
                return datetime.fromtimestamp(1700000000 + loop.time(), tz or timezone.utc)
        n = rng.randint(0, 5)

        def make(i, took, how):
            async def f():
                runs.append((i, loop.time()))
                active[0] += 1
                try:
                    await asyncio.sleep(took)
                    if how == "fail":
                        raise KeyError(i)
                except asyncio.CancelledError:
                    if how == "stubborn":
                        await asyncio.sleep(1)
                    if how == "other":
                        raise ValueError
                    raise
                finally:
                    active[0] -= 1
            return f
        for i in range(n):
            every = rng.choice((5, 10, 15))
            specs.append(every)
            s.register(make(i, rng.choice((0, 0.5, 2)), rng.choice(("", "fail", "stubborn", "other"))),
                       "* * * * * */%d" % every, shield=False, suppress_exceptions=rng.choice(((), (KeyError,))))
        old, aiomisc.cron.datetime = aiomisc.cron.datetime, Clock
        try:
            s.set_loop(loop)
            await s.start()
            await asyncio.sleep(120 + rng.random() * 20)
            for i, every in enumerate(specs):
                mine = [t for k, t in runs if k == i]
                assert len(mine) >= 120 // every - 1, "function %d ran %d times" % (i, len(mine))
                for t in mine:
                    x = (1700000000 + t) % every
                    assert min(x, every - x) < 0.01, "not at a matching time"
            await s.stop(None)
            assert active[0] == 0, "a function goes on"
            k = len(runs)
            await asyncio.sleep(60)
            assert len(runs) == k, "a run after the stop"
        finally:
            aiomisc.cron.datetime = old
    simloop.run(main)


def fuzz_watchdog(rng):
    """a real notify socket"""
    import aiomisc
    import aiomisc.service.sdwatchdog as mod
    d = tempfile.mkdtemp()
    path = os.path.join(d, "s")
    k = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
    k.bind(path)
    k.setblocking(False)
    use = rng.random() < 0.8
    interval = rng.choice((None, 0.04, 0.1))
    gone = use and rng.random() < 0.3
    seen = []

    def read():
        while True:
            try:
                seen.append(k.recv(4096).decode())
            except (BlockingIOError, OSError):
                return
    E = aiomisc.entrypoint
    sigs = {n: getattr(E, n) for n in ("PRE_START", "POST_START", "PRE_STOP", "POST_STOP")}
    from aiomisc.signal import Signal
    for n in sigs:
        setattr(E, n, Signal())
    try:
        mod.setup()
        with Env(NOTIFY_SOCKET=path if use else None):
            s = mod.SDWatchdogService(watchdog_interval=interval)
        state = []

        class Slow(aiomisc.Service):
            async def start(self):
                await asyncio.sleep(0.02)
                read()
                assert "READY=1" not in seen, "READY=1 before the services are started"

        async def body():
            async with E(s, Slow(), log_config=False, catch_signals=()):
                await asyncio.sleep(0.01)
                read()
                assert seen.count("READY=1") == int(use), "READY=1: %r" % seen
                if gone:
                    k.close()
                n = seen.count("WATCHDOG=1")
                await asyncio.sleep(0.13)
                read()
                if use and interval and not gone:
                    assert seen.count("WATCHDOG=1") > n, "the watchdog is not fed: %r" % seen
                assert "STOPPING=1" not in seen
            if not gone:
                read()
            left = len(seen)
            await asyncio.sleep(0.06)
            if not gone:
                read()
            assert len(seen) == left, "something is sent after the stop"
        asyncio.run(asyncio.wait_for(body(), 20))
        if not gone:
            assert seen.count("STOPPING=1") == int(use), "STOPPING=1: %r" % seen
        assert seen.count("READY=1") == int(use), "READY=1: %r" % seen
        if not use or interval is None:
            assert "WATCHDOG=1" not in seen
        if not use:
            assert not seen, seen
    finally:
        for n, v in sigs.items():
            setattr(E, n, v)
        k.close()
        os.unlink(path)
        os.rmdir(d)


def fuzz_reports(rng):
    """the memory tracer and the profiler"""
    import aiomisc
    from aiomisc.service import MemoryTracer, Profiler
    lines, errors = [], []

    async def body():
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda l, c: errors.append(c))
        if rng.random() < 0.5:
            s = MemoryTracer(interval=0.05, top_results=3, logger=lambda f, *a: lines.append(f % a))
        else:
            class Log:
                def getChild(self, name):
                    return self

                def info(self, f, *a):
                    lines.append(f % a if a else f)
            log = Log()
            s = Profiler(interval=0.05, top_results=3, log=log)
        async with aiomisc.entrypoint(s, log_config=False, catch_signals=()):
            await asyncio.sleep(0.02)
            end = loop.time() + 10
            while len(lines) < 2 and loop.time() < end:
                await asyncio.sleep(0.02)
            assert len(lines) >= 2, "no reports"
        n = len(lines)
        await asyncio.sleep(0.15)
        assert len(lines) == n, "a report after the stop"
        assert not tracemalloc.is_tracing()
    asyncio.run(asyncio.wait_for(body(), 30))


FUZZ_S = 6
REAL = ("watchdog", "reports")         # real time and processes
FUZZ = [("periodic", fuzz_periodic), ("cron", fuzz_cron), ("watchdog", fuzz_watchdog), ("reports", fuzz_reports)]
