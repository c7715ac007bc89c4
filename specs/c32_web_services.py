"""C32: aiomisc.service.aiohttp, asgi, uvicorn and grpc_server."""
import asyncio
import os
import shutil
import socket
import ssl
import tempfile
import types

from pyvc import core, simloop
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, close_coro, drive
from pyvc.core import ite
from pyvc.load import Cut, SymSeq, load, need

from .c26_servers import Sock, Thing, guard

ASSUME = ["aiohttp: a site which is started serves its runner on its socket; cleanup of a runner stops its sites and ends its requests",
          "uvicorn: Config keeps its arguments, Server.serve serves until should_exit is set, then ends",
          "grpc: the server serves the handlers and ports it was given from start to stop",
          "aiohttp_asgi runs an ASGI application behind a resource",
          "SSLOptions.create_context and bind_socket keep their contracts (C26)"]
BOUNDED = {"grpc": "up to two ports and handlers of each kind"}
CONTRACTS = ["AIOHTTPService.__init__/start/create_site/make_runner/stop", "AIOHTTPSSLService.__init__/create_site",
             "ASGIHTTPService/ASGIHTTPSSLService.create_application", "UvicornService.start/stop",
             "GRPCService.__init__/add_*/start/stop"]


class World:
    pass


def world(ctx):
    w = World()
    w.ctx, w.bound, w.runners, w.sites, w.options, w.contexts, w.executed, w.log = ctx, [], [], [], [], [], [], []
    mod = load("aiomisc.service.aiohttp", transform=ctx.sym)
    need(mod, "AIOHTTPService", "AIOHTTPSSLService", "AppRunner", "SockSite", "bind_socket", "SSLOptions", "Application")

    class Runner:
        def __init__(self, app, **kw):
            self.app, self.kw, self.up, self.cleaned, self.server = app, kw, False, 0, None
            w.runners.append(self)

        async def setup(self):
            await Suspend("setup", self)

        async def cleanup(self):
            await Suspend("cleanup", self)

    class Site:
        def __init__(self, runner, sock, **kw):
            if not runner.up:
                raise RuntimeError("Call runner.setup() before making a site")
            self.runner, self.sock, self.kw, self.on, self.stops = runner, sock, kw, False, 0
            w.sites.append(self)

        async def start(self):
            await Suspend("site", self)

        async def stop(self):
            self.stops += 1
            await Suspend("stop site", self)

    class App:
        pass

    class Options:
        def __init__(self, *a, **kw):
            names = ("cert", "key", "ca", "verify", "require_client_cert", "purpose")
            self.given = dict(zip(names, a), **kw)
            w.options.append(self)

        def create_context(self):
            c = Thing("context")
            w.contexts.append((c, self))
            return c

    def bind(*a, **kw):
        s = Sock()
        w.bound.append((s, a, kw))
        return s

    class Loop:
        async def run_in_executor(self, ex, f, *a):
            return await Suspend("executor", ex, f, a)

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    mod.AppRunner, mod.SockSite, mod.SSLOptions, mod.bind_socket, mod.Application = Runner, Site, Options, bind, App
    w.mod, w.loop, w.App = mod, Loop(), App
    return w


SSL_ARGS = {"cert": "/c/cert.pem", "key": "/c/key.pem"}


def create(ctx):
    """a service has a socket or binds one; it keeps its options"""
    w = world(ctx)
    mod = w.mod
    tls = bool(ctx.choose(2, "ssl"))
    kw = dict(SSL_ARGS) if tls else {}
    sock = ctx.pick((None, "socket", "no socket"), "sock")
    if sock:
        kw["sock"] = s0 = Sock() if sock == "socket" else Thing("no socket")
    address = ctx.pick(("default", None, "127.0.0.1", "::1", ""), "address")
    if address != "default":
        kw["address"] = address
    else:
        address = None if tls else "localhost"
    port = ctx.pick(("default", None, "number"), "port")
    if port == "number":
        port = kw["port"] = ctx.int("port", 1)
    elif port is None:
        kw["port"] = None
    else:
        port = None
    if ctx.choose(2, "extra"):
        kw["extra"] = Thing("extra")
    cls = mod.AIOHTTPSSLService if tls else mod.AIOHTTPService
    try:
        s = cls(**kw)
    except (RuntimeError, ValueError, TypeError) as e:
        ctx.check(not w.bound, "a service which is refused binds nothing")
        ctx.check(sock == "no socket" or (not sock and (not address or port is None)),
                  "a service with a socket or an address and a port is accepted", e)
        ctx.cover("refused")
        return
    ctx.check(sock != "no socket", "what is no socket is refused")
    if sock:
        ctx.check(s.socket is s0 and not w.bound, "a service uses the socket it was given")
        ctx.cover("socket")
    else:
        ctx.check(address and port is not None, "a service without an address and a port is refused")
        ctx.check(len(w.bound) == 1 and s.socket is w.bound[0][0], "one socket is bound", len(w.bound))
        k = w.bound[0][2]
        ctx.check(k.get("address") == address and bool(k.get("port") == port), "to the given address and port", k)
        ctx.cover("bound")
    ctx.check("extra" not in kw or s.extra is kw["extra"], "other arguments are attributes")


def life(ctx):
    """the application is served on the socket from start to stop, whatever fails"""
    w = world(ctx)
    mod = w.mod
    kind = ctx.pick(("plain", "ssl", "asgi", "asgi ssl"), "kind")
    apps, mounted = [], []
    base = mod.AIOHTTPSSLService if "ssl" in kind else mod.AIOHTTPService
    if "asgi" in kind:
        asgi = load("aiomisc.service.asgi", transform=ctx.sym, imports=(mod,))
        need(asgi, "ASGIHTTPService", "ASGIHTTPSSLService", "ASGIResource", "Application")

        class Resource:
            def __init__(self, app, root_path="", **kw):
                self.app, self.root, self.kw = app, root_path, kw

            def lifespan_mount(self, app, **kw):
                mounted.append((self, app))

        class Router:
            def __init__(self):
                self.resources = []

            def register_resource(self, r):
                self.resources.append(r)

        class App:
            def __init__(self):
                self.router = Router()
        asgi.ASGIResource, asgi.Application = Resource, App
        mod.Application = App
        base = asgi.ASGIHTTPSSLService if "ssl" in kind else asgi.ASGIHTTPService
    app = Thing("application")
    fails_app = not ctx.choose(2, "create_application fails")
    boom = KeyError("x")

    async def make(self):
        if fails_app:
            raise boom
        apps.append(self)
        return app
    cls = type(base)("S", (base,), {("create_asgi_app" if "asgi" in kind else "create_application"): make})
    kw = dict(SSL_ARGS) if "ssl" in kind else {}
    options = bool(ctx.choose(2, "options"))        # either options or failures
    fails_app = fails_app and not options
    if "ssl" in kind and options:
        for n in ("ca", "verify", "require_client_cert"):
            if ctx.choose(2, n + " given"):
                kw[n] = {"ca": "/c/ca.pem", "verify": False, "require_client_cert": True}[n]
    sock = kw["sock"] = Sock()
    limit = 5
    if options and ctx.choose(2, "timeout given"):
        limit = kw["shutdown_timeout"] = ctx.int("shutdown_timeout", 0)
    cancellation = ctx.pick((None, True, False), "handler_cancellation") if options else None
    if cancellation is not None:
        kw["handler_cancellation"] = cancellation
    extra = ctx.pick((None, {}, {"keepalive_timeout": 7}, {"access_log_format": "%a", "handler_cancellation": False}), "runner_kwargs") if options else None
    if extra is not None:
        kw["runner_kwargs"] = dict(extra)
    s = cls(**kw)
    s.set_loop(w.loop)
    st_fail, sp_fail = [], []

    def at(name, where, store):
        x = ctx.pick((None, "fail", "cancel"), name) if not store and not options else None
        if x:
            e = boom if x == "fail" else asyncio.CancelledError()
            store.append((name, e))
            return Exc(e)

    def handler(q):
        if q.kind == "setup":
            x = at("setup", q, st_fail)
            q.args[0].up, q.args[0].server = not x, Thing("server")
            return x or Ret(None)
        if q.kind == "executor":
            w.executed.append(q.args)
            return at("executor", q, st_fail) or Ret(q.args[1](*q.args[2]))
        if q.kind == "site":
            x = at("site", q, st_fail)
            q.args[0].on = not x
            return x or Ret(None)
        if q.kind == "stop site":
            if not q.args[0].on:
                pass
            q.args[0].on = False
            return at("stop site", q, sp_fail) or Ret(None)
        if q.kind == "cleanup":
            q.args[0].cleaned += 1
            for x in w.sites:
                if x.runner is q.args[0]:
                    x.on = False
            return at("cleanup", q, sp_fail) or Ret(None)
        raise core.Unsupported("await on %r" % q)
    started = bool(ctx.choose(2, "started"))
    if started:
        st, v = drive(s.start(), handler)
        if fails_app:
            ctx.check(st == "exc" and v is boom, "an application which can not be made is an error of the start", v)
            ctx.check(not w.runners and not w.sites, "without an application nothing is served")
            ctx.cover("no application")
        elif st_fail:
            ctx.check(st == "exc" and v is st_fail[0][1], "the error of the start is passed on", v)
            ctx.check(not any(x.on for x in w.sites), "nothing is served")
            ctx.cover("start fails")
        else:
            ctx.check(st == "ret", "start does not fail", v)
            ctx.check(len(apps) == 1 and len(w.runners) == 1, "the application is made once")
            r = w.runners[0]
            if "asgi" in kind:
                a = r.app
                ctx.check(len(mounted) == 1 and mounted[0][1] is a and len(a.router.resources) == 1
                          and a.router.resources[0] is mounted[0][0], "the ASGI application is a resource of the application")
                ctx.check(mounted[0][0].app is app and mounted[0][0].root == "/", "the whole path is the ASGI application's")
            else:
                ctx.check(r.app is app, "the application is the one of the service")
            on = [x for x in w.sites if x.on]
            ctx.check(len(on) == 1 and on[0].sock is sock and on[0].runner is r, "the application is served on the socket", len(on))
            ctx.check(bool(r.kw.get("shutdown_timeout") == limit), "with the shutdown timeout", r.kw)
            want = {"handler_cancellation": True if cancellation is None else cancellation}
            want["access_log_class"], want["access_log_format"] = mod.AccessLogger, mod.AccessLogger.LOG_FORMAT
            want.update(extra or {})
            got = {k: v for k, v in r.kw.items() if k != "shutdown_timeout"}
            ctx.check(got == want, "with the options of the runner", got)
            c = on[0].kw.get("ssl_context")
            if "ssl" in kind:
                ctx.check(len(w.contexts) == 1 and c is w.contexts[0][0], "TLS is talked only", c)
                ctx.check(len(w.executed) == 1, "the certificates are read in another thread")
                g = w.contexts[0][1].given
                ctx.check((g.get("cert"), g.get("key"), g.get("ca"), g.get("verify"), g.get("require_client_cert"), g.get("purpose")) ==
                          (SSL_ARGS["cert"], SSL_ARGS["key"], kw.get("ca"), kw.get("verify", True), kw.get("require_client_cert", False),
                           ssl.Purpose.CLIENT_AUTH), "with the options of the service", g)
            else:
                ctx.check(c is None, "no TLS is talked", c)
            if ctx.choose(2, "start again") == 0 and not options:
                n = len(w.runners)
                st, v = drive(s.start(), handler)
                ctx.check(st == "exc" and isinstance(v, RuntimeError), "a service is started once", v)
                ctx.check(len(w.runners) == n and on[0].on, "a second start changes nothing")
            ctx.cover("started " + kind)
    st, v = drive(s.stop(ctx.pick((None, KeyError("y")), "error")), handler)
    ctx.check(not any(x.on for x in w.sites), "nothing is served after stop")
    for r in w.runners:
        ctx.check(r.cleaned >= 1, "the runner is cleaned up, whatever fails")
    if sp_fail:
        ctx.check(st == "exc" and v is sp_fail[-1][1] or st == "ret" and not isinstance(sp_fail[-1][1], asyncio.CancelledError),
                  "a cancellation is passed on", v)
        ctx.cover("stop fails")
    else:
        ctx.check(st == "ret", "stop does not fail", v)
        ctx.cover("stopped")


UVICORN = ("host", "port", "uds", "fd", "http", "ws", "ws_max_size", "ws_ping_interval", "ws_ping_timeout", "ws_per_message_deflate",
           "lifespan", "access_log", "interface", "proxy_headers", "server_header", "date_header", "forwarded_allow_ips", "root_path",
           "limit_concurrency", "limit_max_requests", "backlog", "timeout_keep_alive", "timeout_notify", "timeout_graceful_shutdown",
           "callback_notify", "ssl_keyfile", "ssl_certfile", "ssl_keyfile_password", "ssl_version", "ssl_cert_reqs", "ssl_ca_certs",
           "ssl_ciphers", "headers", "factory", "h11_max_incomplete_event_size")


def uvicorn(ctx):
    """every attribute is an option of uvicorn; stop asks it to exit and waits"""
    mod = load("aiomisc.service.uvicorn", transform=ctx.sym)
    need(mod, "UvicornService", "Config", "Server", "asyncio")
    configs, servers, tasks = [], [], []

    class Config:
        def __init__(self, app, **kw):
            self.app, self.kw, self.made = app, kw, []
            configs.append(self)

        def bind_socket(self):
            self.made.append(Sock())
            return self.made[-1]

    class Server:
        def __init__(self, config):
            self.config, self.should_exit = config, False
            servers.append(self)

        async def serve(self, sockets=None):
            self.sockets = sockets
            await Suspend("serve", self)

    class Task:
        def __init__(self, coro):
            self.coro = coro
            tasks.append(self)

        def __await__(self):
            return (yield Suspend("task", self))

        def done(self):
            return False

        def __del__(self):
            close_coro(self.coro)
    mod.Config, mod.Server = Config, Server

    class Loop:
        def create_task(self, coro, **kw):
            return Task(coro)

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    loop = Loop()
    mod.asyncio = NS(asyncio, create_task=lambda coro, **kw: Task(coro), get_running_loop=lambda: loop)
    app, boom = Thing("application"), KeyError("x")
    fails = not ctx.choose(2, "create_application fails")
    made = []

    class S(mod.UvicornService):
        async def create_application(self):
            if fails:
                raise boom
            made.append(self)
            return app
    kw = {}
    how = ctx.pick(("default", "one", "all"), "options")
    if how == "one":
        n = UVICORN[ctx.choose(len(UVICORN), "option")]
        kw[n] = ctx.int("value") if n in ("port", "backlog", "ws_max_size") else Thing(n)
    elif how == "all":
        kw = {n: Thing(n) for n in UVICORN}
    sock = None
    if ctx.choose(2, "socket"):
        sock = kw["sock"] = Sock()
    s = S(**kw)
    s.set_loop(loop)
    want = {n: kw.get(n, getattr(mod.UvicornService, n)) for n in UVICORN}
    for n in vars(mod.UvicornService).get("__annotations__", {}):
        ctx.check(n in want or n in ("sock",) or n.startswith("_") or n not in vars(mod.UvicornService), "every option is known", n)
    seen = []

    def handler(q):
        if q.kind == "task":
            seen.append(q.args[0])
            ctx.check(servers and servers[0].should_exit, "the server is asked to exit")
            e = ctx.pick((None, boom, asyncio.CancelledError()), "serving ends")
            end.append(e)
            return Exc(e) if e else Ret(None)
        raise core.Unsupported("await on %r" % q)
    end = []
    started = bool(ctx.choose(2, "started"))
    if started:
        st, v = drive(s.start(), handler)
        if fails:
            ctx.check(st == "exc" and v is boom and not tasks, "an application which can not be made is an error of the start", v)
            ctx.cover("no application")
        else:
            ctx.check(st == "ret" and len(made) == 1, "start does not fail", v)
            ctx.check(len(configs) == 1 and configs[0].app is app, "the application is the one of the service")
            got = configs[0].kw
            for n in UVICORN:
                ctx.check(n in got and (got[n] is want[n] or bool(got[n] == want[n])), "the option %s is passed on" % n, got.get(n))
            rest = {k: v for k, v in got.items() if k not in UVICORN and v is not None and v is not False}
            ctx.check(got.get("log_config", 1) is None and not rest, "logging is left to the application", rest)
            ctx.check(len(tasks) == 1 and len(servers) == 1 and servers[0].config is configs[0], "one server")
            try:
                tasks[0].coro.send(None)
            except StopIteration:
                pass
            ctx.check(not servers[0].should_exit, "the server runs until stop")
            if sock is not None:
                ctx.check(servers[0].sockets == [sock] and not configs[0].made, "the application is served on the socket")
            else:
                ctx.check(len(configs[0].made) == 1 and servers[0].sockets == configs[0].made, "the application is served on one socket")
            ctx.cover("started " + how)
    st, v = drive(s.stop(ctx.pick((None, KeyError("y")), "error")), handler)
    if started and not fails:
        ctx.check(servers[0].should_exit and seen == tasks, "stop waits until the server has ended")
        if isinstance(end[0], asyncio.CancelledError):
            ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancellation is passed on", v)
        else:
            ctx.check(st == "ret" or v is end[0], "stop does not fail by itself", v)
        ctx.cover("stopped")
    else:
        ctx.check(st == "ret", "a service which could not be started can be stopped", v)


class Names(SymSeq):
    """a list of names of any length that is appended to"""

    def append(self, x):
        self.__dict__.setdefault("more", []).append(x)


class Handlers(SymSeq):
    def map(self, fn, name=None):
        s = super().map(fn, name)
        return Names(s.n, s._elem, s.name, s.witness, s.generic)


def grpc_any(ctx):
    """starting with any number of ports and handlers, seen from one of each"""
    if not ctx.sym:
        return grpc(ctx)
    mod = load("aiomisc.service.grpc_server", transform=ctx.sym)
    need(mod, "GRPCService", "grpc", "reflection", "asyncio", "log")
    show = bool(ctx.choose(2, "reflection"))
    s = mod.GRPCService(reflection=True) if show else mod.GRPCService()
    need(s, "_insecure_ports", "_secure_ports", "_services", "_registered_services")
    mod.log = Sink()

    class G:
        row = None          # another element
        order = []
        server = None
        shown = []

    class Future:
        def __init__(self, gone):
            self.gone, self.value = gone, None

        def done(self):
            return self.gone or self.value is not None

        def cancelled(self):
            return self.gone

        def set_result(self, v):
            if self.done():
                raise asyncio.InvalidStateError
            self.value = v

    class Port:
        """a port which is to be opened; times: how often it was"""

        def __init__(self, kind, name, cred):
            self.address, self.cred = name + ":0", cred
            self.future = Future(bool(ctx.choose(2, "the waiter has gone")))
            self.times, self.number, self.evals = 0, None, 0

        def opened(self):
            self.times = self.times + 1
            self.number = ctx.int("port", 1)
            return self.number

        def tell(self):
            f = self.future
            return f.gone or f.value is self.number

    class Handler:
        def __init__(self, name):
            self.n, self.times, self.evals = name, 0, 0

        def service_name(self):
            return self.n

        def tell(self):
            return True
    mine = {"insecure": Port("insecure", "mine", None), "secure": Port("secure", "mine", Thing("credentials")),
            "methods": Handler("mine")}
    table = Thing("methods")

    def policy(kind, j):
        base = []
        me = mine[kind]

        def havoc(c):
            me.times = c.int("times", 0)

        def inv(c):
            if not base:
                base.append(me.times)
            r = [(me.times == base[0] + ite(c.iter_index > j, 1, 0), "each port is opened (method handler added) once")]
            x = G.row
            if x is not None and x.kind == kind:
                x.evals += 1
                if x.evals > 2:     # after its iteration
                    r += [(x.times == 1, "each port is opened (method handler added) once"),
                          (x.tell(), "the number of a port is told to who added it")]
            return r
        return Cut(havoc, inv)

    def seq(kind, elem, cls=SymSeq):
        n, j = ctx.int(kind, 0), ctx.int("mine", 0)
        ctx.assume(j < n)

        def other():
            G.row = Port(kind, "other", Thing("other")) if kind != "methods" else Handler("other")
            G.row.kind = kind
            return elem(G.row)
        return SymSeq(n, lambda i: elem(mine[kind]), kind, j, other, policy=policy(kind, j))
    if not (isinstance(s._insecure_ports, set) and isinstance(s._secure_ports, set) and isinstance(s._services, set)
            and isinstance(s._registered_services, dict)):
        raise core.Unsupported("other containers")
    s._insecure_ports = seq("insecure", lambda p: (p.address, p.future))
    s._secure_ports = seq("secure", lambda p: (p.address, p.cred, p.future))
    rows = seq("methods", lambda h: (h.n, table))

    class Table:
        def items(self):
            return rows
    s._registered_services = Table()
    nh, jh = ctx.int("handlers", 0), ctx.int("mine", 0)
    ctx.assume(jh < nh)
    me = Handler("mine")
    s._services = Handlers(nh, lambda i: me, "handlers", jh, lambda: Handler("other"))

    class Server:
        started = 0
        generic = None

        def add_insecure_port(self, address):
            return self.open("insecure", address, None)

        def add_secure_port(self, address, cred):
            return self.open("secure", address, cred)

        def open(self, kind, address, cred):
            x = mine[kind] if address == mine[kind].address else G.row
            ctx.check(address == x.address and (kind == "insecure" or cred is x.cred), "a port is opened as it was added", address)
            ctx.check(not self.started, "before the server is started")
            return x.opened()

        def add_generic_rpc_handlers(self, hs):
            if not isinstance(hs, SymSeq):
                raise core.Unsupported("handlers one by one")
            ctx.check(self.generic is None and hs is s._services, "each handler is added once")
            ctx.check(not self.started, "before the server is started")
            self.generic = hs

        def add_registered_method_handlers(self, name, hs):
            ctx.check(hs is table and name in ("mine", "other") and not self.started, "each method handler is added")
            x = mine["methods"] if name == "mine" else G.row
            x.times = x.times + 1

        async def start(self):
            self.started += 1

    def make(**kw):
        ctx.check(G.server is None, "one server is started")
        G.server = Server()
        return G.server

    def enable(names, server):
        ctx.check(server is G.server and not server.started, "reflection tells the services")
        ctx.check(isinstance(names, Names) and names.__dict__.get("more") == [mod.reflection.SERVICE_NAME] and
                  names.n is nh and names.at(jh) == "mine" and names.generic() == "other", "reflection tells the services", names)
        G.shown.append(1)
    real = mod.grpc
    mod.grpc = NS(real, aio=NS(real.aio, server=make))
    mod.reflection = NS(mod.reflection, enable_server_reflection=enable)
    st, v = drive(s.start(), lambda q: Ret(None))
    ctx.check(st == "ret", "start does not fail", v)
    ctx.check(G.server is not None and G.server.started == 1, "one server is started")
    for k, p in mine.items():
        ctx.check(p.times == 1, "each port is opened (method handler added) once")
        ctx.check(p.tell(), "the number of a port is told to who added it")
    ctx.check(G.server.generic is s._services, "each handler is added once")
    ctx.check(len(G.shown) == (1 if show else 0), "reflection is off unless it is asked for")
    ctx.cover("started")


def grpc(ctx):
    """handlers and ports are the server's from start to stop"""
    mod = load("aiomisc.service.grpc_server", transform=ctx.sym)
    need(mod, "GRPCService", "grpc", "reflection", "asyncio", "log")
    servers, futures, shown = [], [], []

    class Future:
        def __init__(self, **kw):
            self.state, self.value = None, None
            futures.append(self)

        def done(self):
            return self.state is not None

        def cancelled(self):
            return self.state == "cancelled"

        def set_result(self, v):
            if self.state:
                raise asyncio.InvalidStateError
            self.state, self.value = "ret", v

        def cancel(self):
            self.state = "cancelled"

        def __class_getitem__(cls, x):
            return cls

    class Server:
        def __init__(self, **kw):
            self.kw, self.ports, self.generic, self.methods, self.on, self.stops = kw, [], [], [], 0, []
            servers.append(self)

        def add_insecure_port(self, address):
            self.ports.append((address, None, 40000 + len(self.ports)))
            return self.ports[-1][2]

        def add_secure_port(self, address, cred):
            self.ports.append((address, cred, 40000 + len(self.ports)))
            return self.ports[-1][2]

        def add_generic_rpc_handlers(self, hs):
            self.generic += list(hs)

        def add_registered_method_handlers(self, name, hs):
            self.methods.append((name, dict(hs)))

        async def start(self):
            ended = (len(self.ports), len(self.generic), len(self.methods))
            await Suspend("start", self)
            self.on += 1
            self.at = ended

        async def stop(self, grace):
            self.stops.append(grace)
            await Suspend("stop", self)
            self.on = 0
    real = mod.grpc
    mod.grpc = NS(real, aio=NS(real.aio, server=lambda **kw: Server(**kw)))
    mod.reflection = NS(mod.reflection, enable_server_reflection=lambda names, server: shown.append((list(names), server)))

    class Loop:
        def create_future(self):
            return Future()

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    loop = Loop()
    mod.asyncio = NS(asyncio, Future=Future, get_event_loop=lambda: loop, get_running_loop=lambda: loop)
    mod.log = Sink()

    class Handler:
        def __init__(self, name):
            self.n = name

        def service_name(self):
            return self.n
    kw = {}
    names = ("compression", "handlers", "interceptors", "maximum_concurrent_rpcs", "migration_thread_pool", "options")
    given = ctx.pick(((),) + tuple((n,) for n in names) + (names,), "arguments")
    for n in given:
        kw[n] = Thing(n)
    show = bool(ctx.choose(2, "reflection"))
    if show:
        kw["reflection"] = True
    s = mod.GRPCService(**kw)
    s.set_loop(loop)
    ports, generic, methods = [], [], {}
    addresses = ("[::]:0", "localhost:0", "unix:/x")
    gone = bool(ctx.choose(2, "a waiter has gone"))
    for i in range(ctx.choose(3, "insecure ports")):
        a = addresses[ctx.choose(2, "address")]
        ports.append((a, None, s.add_insecure_port(a)))
    for i in range(ctx.choose(3, "secure ports")):
        a, c = addresses[2 * i % 3], Thing("credentials")
        ports.append((a, c, s.add_secure_port(a, c)))
    for i in range(ctx.choose(3, "handlers")):
        h = Handler("h%d" % i)
        s.add_generic_rpc_handlers([h] if i else (h,))
        generic.append(h)
        if i == 0:
            a, b = Thing("a"), Thing("b")
            s.add_registered_method_handlers("svc", {"A": a})
            s.add_registered_method_handlers("svc", {"B": b})
            s.add_registered_method_handlers("other", {"A": b})
            methods.update(svc={"A": a, "B": b}, other={"A": b})
    ctx.check(all(isinstance(f, Future) and not f.done() for _, _, f in ports), "ports are known once the server is started")
    if gone and ports:
        ports[0][2].cancel()
    how = ctx.pick((None, "fail", "cancel"), "start")
    boom = KeyError("x")

    def handler(q):
        if q.kind == "start":
            return Ret(None) if how is None else Exc(boom if how == "fail" else asyncio.CancelledError())
        if q.kind == "stop":
            return Ret(None)
        raise core.Unsupported("await on %r" % q)
    st, v = drive(s.start(), handler)
    if how is None:
        ctx.check(st == "ret", "start does not fail", v)
        ctx.check(len(servers) == 1 and servers[0].on == 1, "one server is started")
    else:
        ctx.check(st == "exc" and (v is boom if how == "fail" else isinstance(v, asyncio.CancelledError)), "the error is passed on", v)
    x = servers[0]
    ctx.check({n: x.kw.get(n) for n in names} == {n: kw.get(n) for n in names}, "the server has the arguments", x.kw)
    ctx.check(sorted((a, id(c)) for a, c, _ in ports) == sorted((a, id(c)) for a, c, _ in x.ports), "each port is opened once, as it was added",
              x.ports)
    opened = [n for _, _, n in x.ports]
    for a, c, f in ports:
        if f.state == "cancelled":
            continue
        mine = [n for b, d, n in x.ports if b == a and d is c]
        ctx.check(f.state == "ret" and f.value in mine, "the number of a port is told to who added it", f.value)
    told = [f.value for _, _, f in ports if f.state == "ret"]
    ctx.check(len(told) == len(set(told)), "each number is told once", told)
    ctx.check(sorted(map(id, x.generic)) == sorted(map(id, generic)), "each handler is added once", len(x.generic))
    flat = {}
    for n, hs in x.methods:
        flat.setdefault(n, {}).update(hs)
    ctx.check(flat == methods, "each method handler is added", flat)
    if how is None:
        ctx.check(x.at == (len(x.ports), len(x.generic), len(x.methods)), "before the server is started")
    if show:
        ctx.check(len(shown) == 1 and shown[0][1] is x and
                  sorted(shown[0][0]) == sorted([h.n for h in generic] + [mod.reflection.SERVICE_NAME]), "reflection tells the services", shown)
    else:
        ctx.check(not shown, "reflection is off unless it is asked for")
    st, v = drive(s.stop(ctx.pick((None, KeyError("y")), "error")), handler)
    ctx.check(st == "ret", "stop does not fail", v)
    ctx.check(x.stops == [s.GRACEFUL_STOP_TIME] and not x.on, "stop waits for the calls, for the graceful time", x.stops)
    ctx.cover("stopped")


HARNESSES = [(h.__name__, guard(h)) for h in (create, life, uvicorn, grpc, grpc_any)]


# ------------------------------------------------------------- executions

async def ask(path, what, hold=None):
    """one HTTP request over a unix socket; the body of the answer"""
    r, w = await asyncio.open_unix_connection(path)
    try:
        w.write(b"GET /%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % what.encode())
        await w.drain()
        if hold is not None:
            hold.set()
        data = await asyncio.wait_for(r.read(), 10)
        head, _, body = data.partition(b"\r\n\r\n")
        if not head:
            return None
        assert head.startswith(b"HTTP/1.1 200"), head
        if b"chunked" in head.lower():
            out = b""
            while body:
                n, _, body = body.partition(b"\r\n")
                n = int(n, 16)
                out, body = out + body[:n], body[n + 2:]
            body = out
        return body.decode()
    finally:
        w.close()


async def refused(path):
    try:
        r, w = await asyncio.wait_for(asyncio.open_unix_connection(path), 10)
    except OSError:
        return True
    try:
        w.write(b"GET /late HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
        return not await asyncio.wait_for(r.read(), 1)
    except (OSError, asyncio.TimeoutError):
        return True
    finally:
        w.close()


def asgi_app(log, wait):
    async def app(scope, receive, send):
        if scope["type"] == "lifespan":
            while True:
                m = await receive()
                log.append(m["type"])
                await send({"type": m["type"] + ".complete"})
                if m["type"] == "lifespan.shutdown":
                    return
        path = scope["path"]
        log.append(path)
        if path == "/slow":
            await wait()
        await send({"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/plain")]})
        await send({"type": "http.response.body", "body": b"got " + path.encode()})
        log.append("done " + path)
    return app


def web(rng, kind):
    import aiomisc
    import logging
    log = []

    async def main(d):
        path = os.path.join(d, "s")
        sock = socket.socket(socket.AF_UNIX)
        sock.bind(path)
        ready = asyncio.Event()
        slow = rng.random() < 0.5
        took = rng.choice((0.05, 0.1))

        async def wait():
            await asyncio.sleep(took)
        if kind == "uvicorn":
            from aiomisc.service.uvicorn import UvicornService

            class S(UvicornService):
                async def create_application(self):
                    return asgi_app(log, wait)
            s = S(sock=sock, server_header=False, **({"host": "192.0.2.1"} if rng.random() < 0.5 else {}))
        elif kind == "asgi":
            from aiomisc.service.asgi import ASGIHTTPService

            class S(ASGIHTTPService):
                async def create_asgi_app(self):
                    return asgi_app(log, wait)
            s = S(sock=sock)
        else:
            from aiohttp import web as aio
            from aiomisc.service.aiohttp import AIOHTTPService

            class S(AIOHTTPService):
                async def create_application(self):
                    app = aio.Application()

                    async def h(request):
                        log.append(request.path)
                        if request.path == "/slow":
                            await wait()
                        log.append("done " + request.path)
                        return aio.Response(text="got " + request.path)
                    app.router.add_get("/{x}", h)

                    async def up(app):
                        log.append("lifespan.startup")

                    async def down(app):
                        log.append("lifespan.shutdown")
                    app.on_startup.append(up)
                    app.on_cleanup.append(down)
                    return app
            s = S(sock=sock, shutdown_timeout=5)
        s.set_loop(asyncio.get_running_loop())
        await s.start()
        if kind == "uvicorn":           # (it is not said to be ready)
            for _ in range(1000):
                if s.server.started:
                    break
                await asyncio.sleep(0.005)
        n = rng.randint(0, 4)
        got = await asyncio.gather(*[ask(path, "r%d" % i) for i in range(n)])
        assert got == ["got /r%d" % i for i in range(n)], got
        for i in range(n):
            assert log.count("/r%d" % i) == 1, "a request was not served once: %r" % log
        if slow:
            t = asyncio.ensure_future(ask(path, "slow"))
            for _ in range(2000):
                if "/slow" in log:
                    break
                await asyncio.sleep(0.001)
        st = asyncio.ensure_future(s.stop())
        await asyncio.wait([st], timeout=15)
        assert st.done(), "stop does not end"
        st.result()
        if slow:
            assert await t == "got /slow", "a request in progress was not finished"
            assert "done /slow" in log
        assert log.count("lifespan.startup") == 1 and log.count("lifespan.shutdown") == 1, "the application is started and stopped once: %r" % log
        assert log[-1] == "lifespan.shutdown"
        k = len(log)
        assert await refused(path), "a client is served after stop"
        assert len(log) == k, "a request after stop"
        sock.close()
    d = tempfile.mkdtemp(prefix="c32-")
    logging.disable()
    try:
        asyncio.run(asyncio.wait_for(main(d), 28))
    finally:
        logging.disable(logging.NOTSET)
        shutil.rmtree(d)


def fuzz_http(rng):
    """requests of a real server of aiohttp or aiohttp_asgi"""
    web(rng, rng.choice(("http", "asgi")))


def fuzz_uvicorn(rng):
    """requests of a real uvicorn"""
    web(rng, "uvicorn")


def fuzz_grpc(rng):
    """calls of a real gRPC server"""
    import grpc.aio
    import logging
    from aiomisc.service.grpc_server import GRPCService
    log = []

    class H(grpc.GenericRpcHandler):
        def __init__(self, name):
            self.name = name

        def service_name(self):
            return self.name

        def service(self, d):
            if not d.method.startswith("/%s/" % self.name):
                return None

            async def call(data, ctx):
                log.append((self.name, data))
                if data == b"slow":
                    await asyncio.sleep(0.1)
                return self.name.encode() + b":" + data
            return grpc.unary_unary_rpc_method_handler(call)

    async def main(d):
        s = GRPCService()
        s.set_loop(asyncio.get_running_loop())
        names = ["s%d" % i for i in range(rng.randint(1, 3))]
        for n in names:
            s.add_generic_rpc_handlers([H(n)])
        paths = ["unix:" + os.path.join(d, "p%d" % i) for i in range(rng.randint(1, 3))]
        fs = [s.add_insecure_port(p) for p in paths]
        late = rng.randrange(len(fs)) if rng.random() < 0.3 else None
        if late is not None:
            fs[late].cancel()
        await s.start()
        for i, f in enumerate(fs):
            assert f.done() and (i == late or f.result() > 0), "a port is not known after the start"
        slow = None
        for p in paths:
            async with grpc.aio.insecure_channel(p) as c:
                for n in names:
                    x = b"%d" % rng.randrange(100)
                    r = await c.unary_unary("/%s/M" % n)(x, timeout=10)
                    assert r == n.encode() + b":" + x, r
                    assert log[-1] == (n, x)
        ch = grpc.aio.insecure_channel(paths[0])
        if rng.random() < 0.5:
            slow = asyncio.ensure_future(ch.unary_unary("/%s/M" % names[0])(b"slow", timeout=10))
            for _ in range(2000):
                if (names[0], b"slow") in log:
                    break
                await asyncio.sleep(0.001)
        await asyncio.wait_for(s.stop(), 15)
        if slow:
            assert await asyncio.wait_for(slow, 5) == names[0].encode() + b":slow", "a call in progress was not finished"
        await ch.close()
        k = len(log)
        async with grpc.aio.insecure_channel(paths[0]) as c:
            try:
                await c.unary_unary("/%s/M" % names[0])(b"late", timeout=0.3)
            except grpc.aio.AioRpcError:
                pass
        assert len(log) == k, "a call after stop"
    d = tempfile.mkdtemp(prefix="c32-")
    logging.disable()
    try:
        asyncio.run(asyncio.wait_for(main(d), 28))
    finally:
        logging.disable(logging.NOTSET)
        shutil.rmtree(d)


FUZZ_S = 6
REAL = ("http", "uvicorn", "grpc")
FUZZ = [("http", fuzz_http), ("uvicorn", fuzz_uvicorn), ("grpc", fuzz_grpc)]
