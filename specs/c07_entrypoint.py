"""C07: starting and stopping services (aiomisc.entrypoint)."""
import asyncio

from pyvc import aio, core
from pyvc.aio import Exc, NS, Ret, Suspend, drive
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["asyncio.wait/gather/ensure_future/create_task are used through "
          "their contracts",
          "receivers of the entrypoint signals do not fail"]
CONTRACTS = ["Entrypoint._start_service", "Entrypoint.start_services (any number)",
             "Entrypoint.stop_services (any number)",
             "Entrypoint.__aexit__/_stop/graceful_shutdown/_cancel_background_tasks (any number)",
             "Entrypoint.__aenter__/_start (any number)"]
BOUNDED = {"stop_services": "three services (again, with all interleavings of their ends)"}


class Failed(Exception):
    pass


class Sig:
    def __init__(self, name, log, ep=None):
        self.name, self.log, self.ep = name, log, ep

    async def call(self, *a, **kw):
        if core.CURRENT is not None:
            core.CURRENT.check(not a and set(kw) == {"entrypoint", "services"} and (
                self.ep is None or kw["entrypoint"] is self.ep), "receivers get the entrypoint and the services", kw)
        await Suspend("signal", self.name)
        self.log.append(self.name)
        self.kw = kw


class Task:
    """a started coroutine"""
    n = 0

    def __init__(self, coro):
        self.coro = coro
        self.state = None       # None | ("ret", v) | ("exc", e)
        aio.close_coro(coro)

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.state is not None and isinstance(
            self.state[1], asyncio.CancelledError)

    def exception(self):
        return self.state[1] if self.state[0] == "exc" else None

    def result(self):
        if self.state[0] == "exc":
            raise self.state[1]
        return self.state[1]

    def __await__(self):
        if self.state is None:
            yield Suspend("task", self)
        return self.result()

    def __hash__(self):
        return id(self)


def make(ctx, mod, log):
    """an entrypoint object without running __init__"""
    if "__del__" in vars(mod.Entrypoint):
        del mod.Entrypoint.__del__
    ep = mod.Entrypoint.__new__(mod.Entrypoint)
    ep._services = set()
    ep._tasks = set()
    ep._stop_tasks = {}
    ep._closing = None
    ep._loop_owner = False
    ep._thread_pool = None
    for n in ("pre_start", "post_start", "pre_stop", "post_stop"):
        setattr(ep, n, Sig(n, log, ep))
    return ep


def start_service(ctx):
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod.Entrypoint, "_start_service")
    log = []
    ep = make(ctx, mod, log)
    tasks = []

    def ensure(x):
        t = Task(x)
        t.kind = getattr(x, "kind", None)
        tasks.append(t)
        return t

    class Coro:
        def __init__(self, kind):
            self.kind = kind

    class Event:
        flag = False

        def set(self):
            self.flag = True
            for t in tasks:
                if t.kind == "event":
                    t.state = ("ret", True)

        def wait(self):
            return Coro("event")

        def is_set(self):
            return self.flag

    class Svc:
        starts = 0
        loop = None

        def set_loop(self, loop):
            self.loop = loop
            self.start_event = Event()

        def start(self):
            ctx.check(self.loop is not None, "the loop is set before start")
            self.starts += 1
            return Coro("start")
    svc = Svc()

    class L:
        def call_soon(self, f, *a):
            soon.append((f, a))

        def create_task(self, c):
            return ensure(c)

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    soon = []
    ep._loop = L()

    class FakeWait:
        def __init__(self, fs, timeout=None, return_when="ALL_COMPLETED"):
            self.fs, self.how, self.timeout = set(fs), return_when, timeout

        def __await__(self):
            yield Suspend("wait", self)
            d = {f for f in self.fs if f.done()}
            return d, self.fs - d
    mod.asyncio = NS(asyncio, ensure_future=ensure, wait=FakeWait,
                     FIRST_COMPLETED="FIRST_COMPLETED",
                     ALL_COMPLETED="ALL_COMPLETED")
    boom = Failed("start")
    st = {}

    def flush():
        while soon:
            f, a = soon.pop(0)
            f(*a)

    def handler(req):
        flush()
        ctx.check(svc in ep._services, "a service being started will be stopped")
        start = [t for t in tasks if t.kind == "start"]
        event = [t for t in tasks if t.kind == "event"]
        if req.kind == "wait":
            w = req.args[0]
            ctx.check(w.timeout is None, "no limit on starting")
            k = ctx.pick(("start returns", "start fails", "event", "both"), "starting")
            st["k"] = k
            if k == "event" and w.how == "ALL_COMPLETED":
                raise core.PathEnd
            if k in ("start returns", "both"):
                start[0].state = ("ret", None)
            if k == "start fails":
                start[0].state = ("exc", boom)
            if k in ("event", "both"):
                svc.start_event.flag = True
                event[0].state = ("ret", True)
            return Ret(None)
        if req.kind == "task":
            t = req.args[0]
            if t.kind == "event":
                flush()
                if not t.done():
                    raise core.Unsupported("waits for the start event for ever")
                if not start[0].done() and ctx.choose(2, "start ends meanwhile"):
                    start[0].state = ("ret", None) if ctx.choose(2, "ok") else ("exc", boom)
                    st["late"] = True
                return Ret(None)
            ctx.check(not svc.start_event.flag or t.done(), "start is awaited until it returned or signalled readiness")
            raise core.Unsupported("waits for start itself")
        raise core.Unsupported(req.kind)
    status, got = drive(ep._start_service(svc), handler)
    flush()
    ctx.check(svc.starts == 1, "start is called exactly once")
    ctx.check(svc in ep._services, "a started service will be stopped")
    start = [t for t in tasks if t.kind == "start"]
    ctx.check(len(start) == 1, "start is run once")
    ctx.check("k" in st, "readiness is awaited")
    ctx.cover(st["k"])
    if start[0].state and start[0].state[0] == "exc":
        ctx.check(status == "exc" and got is boom, "a failing start is raised")
    else:
        ctx.check(status == "ret", "starting succeeds")
    if not start[0].done():
        ctx.check(start[0] in ep._tasks, "a service still running its start is kept")
    ctx.check(svc.start_event.flag, "the start event is set afterwards")


def start_services(ctx):
    """any number of services"""
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod.Entrypoint, "start_services", "_start_service")
    log = []
    ep = make(ctx, mod, log)
    ep._loop = aio.Loop(ctx, 0)
    if ctx.sym:
        n = ctx.int("n", 1)
        j = ctx.int("j", 0)
        ctx.assume(j < n)
    else:
        n = ctx.choose(4, "n") + 1
        j = ctx.choose(n, "j")
    mine = object()
    boom = Failed("start")
    G = {"gathered": 0, "mine": 0}

    class SS:
        def __init__(self, s):
            self.s = s

    ep._start_service = SS

    class Gather:
        def __vc_symcall__(self, seq, **kw):
            return self.go(seq.n, [seq.at(j)], kw)

        def __call__(self, *a, **kw):
            return self.go(len(a), [x for x in a if x.s is mine], kw)

        async def go(self, num, mine_, kw):
            G["gathered"] = num
            G["mine"] += len(mine_)
            ctx.check(log == ["pre_start"], "PRE_START comes before any start")
            ctx.check(mine_[0].s is mine, "every service is started")
            ctx.check(not kw.get("return_exceptions"), "a failing start is not swallowed")
            await Suspend("gather")
            ctx.check(log == ["pre_start"], "POST_START waits for the services")
            G["failed"] = ctx.choose(2, "one fails")
            if G["failed"]:
                raise boom
    mod.asyncio = NS(asyncio, gather=Gather())
    if ctx.sym:
        from pyvc.load import vc_call
        svcs = SymSeq(n, lambda i: mine, "services", j, lambda: object())
        co = vc_call(ep.start_services, ((True, svcs),))
    else:
        co = ep.start_services(*[mine if i == j else object() for i in range(n)])
    status, got = drive(co, lambda q: Ret(None))
    ctx.check(G["gathered"] == n and G["mine"] == 1, "every service is started once")
    ctx.check(log == ["pre_start", "post_start"], "PRE_START and POST_START once, in order")
    if G["failed"]:
        ctx.check(status == "exc" and got is boom, "the failure of a start is raised")
    else:
        ctx.check(status == "ret", "starting succeeds")


def stop_services(ctx):
    """up to three services, every outcome of each stop()"""
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod.Entrypoint, "stop_services")
    mod.log = aio.Sink()
    log = []
    ep = make(ctx, mod, log)
    n = ctx.choose(4, "services")
    reason = ctx.pick((None, Failed("reason"), KeyboardInterrupt("reason")), "reason") if n < 2 else None
    ep._closing = ctx.pick((None, aio.Sink()), "closing") if n < 2 else None
    st = {"cancelled": False}

    class Svc:
        def __init__(self, i):
            self.i = i
            self.stops = 0

        def stop(self, exc=None):
            ctx.check(log == ["pre_stop"], "PRE_STOP comes before any stop")
            ctx.check(exc is reason, "stop gets the reason of leaving")
            self.stops += 1
            self.k = ctx.pick(("ok", "fails", "mismatch", "cancelled"), "stop")
            if self.k == "mismatch":
                raise TypeError("signature")

            async def co():
                pass
            c = co()
            return c
    svcs = [Svc(i) for i in range(n)]
    for s in svcs:
        ep._services.add(s)
    tasks = []

    class L:
        def create_task(self, c):
            t = Task(c)
            tasks.append(t)
            t.svc = [s for s in svcs if s.stops and not hasattr(s, "task")][-1]
            t.svc.task = t
            return t

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    ep._loop = L()

    def finish_some(order_free=False):
        for t in tasks:
            if not t.done() and (order_free or ctx.choose(2, "ends")):
                t.state = ("ret", None) if t.svc.k == "ok" else (
                    "exc", asyncio.CancelledError() if t.svc.k == "cancelled" else Failed(t.svc.i))

    class Gather:
        def __init__(self, *a, return_exceptions=False):
            self.ts, self.re = a, return_exceptions

        def __await__(self):
            yield Suspend("gather", self)
            if not self.re:
                for t in self.ts:
                    if t.done() and t.state[0] == "exc":
                        raise t.state[1]
            return [t.state[1] for t in self.ts]

    class Wait:
        def __init__(self, ts, timeout=None, return_when="ALL_COMPLETED"):
            self.ts = list(ts)
            self.how = return_when

        def __await__(self):
            if self.ts:
                yield Suspend("gather", self)
            return ({t for t in self.ts if t.done()}, {t for t in self.ts if not t.done()})
    mod.asyncio = NS(asyncio, gather=Gather, wait=Wait)

    async def fake_cancel(ts):
        for t in ts:
            if not t.done():
                ctx.check(st["cancelled"], "a failing stop does not interrupt the others")
                t.state = ("exc", asyncio.CancelledError())
    mod.cancel_tasks = fake_cancel

    def handler(req):
        if req.kind == "signal":
            if req.args[0] == "post_stop":
                ctx.check(all(t.done() for t in tasks), "POST_STOP comes after all stops")
            return Ret(None)
        if req.kind == "gather":
            g = req.args[0]
            if ctx.choose(2, "shutdown is cancelled"):
                st["cancelled"] = True
                finish_some()
                return Exc(asyncio.CancelledError())
            waits_all = getattr(g, "re", True)
            finish_some(order_free=waits_all)
            if not waits_all:
                # gather ends with the first failure, others may be running
                if not any(t.done() and t.state[0] == "exc" for t in g.ts):
                    finish_some(order_free=True)
            return Ret(None)
        if req.kind == "task":
            finish_some(order_free=True)
            return Ret(None)
        raise core.Unsupported(req.kind)
    status, got = drive(ep.stop_services(*svcs, exc=reason), handler)
    for s in svcs:
        ctx.check(s.stops == 1, "every service is stopped exactly once")
        ctx.check(s not in ep._services, "a stopped service is not stopped again")
    ctx.check(log == ["pre_stop", "post_stop"], "PRE_STOP and POST_STOP once, in order")
    if st["cancelled"]:
        ctx.check(status == "exc", "cancellation passes through")
    else:
        ctx.check((status == "exc") == any(x.k in ("fails", "cancelled") for x in svcs), "a failing stop is reported", got)
    ctx.cover("stopped")

class OneSet(core.Abstract):
    """a set of services seen from one of them: how often it is in is known,
    nothing about the others"""

    def __init__(self, ctx, has, name):
        self.ctx, self.has, self.name = ctx, has, name

    def add(self, x):
        if getattr(x, "mine", False):
            self.has = True

    def discard(self, x):
        if getattr(x, "mine", False):
            self.has = False

    remove = discard

    def __contains__(self, x):
        if getattr(x, "mine", False):
            return bool(self.has)
        return bool(self.ctx.choose(2, "another one in " + self.name))


class OneMap(OneSet):
    """a dictionary by service, seen from one of them"""

    def __init__(self, ctx, val, other, name):
        super().__init__(ctx, val is not None, name)
        self.val, self.other = val, other

    def __setitem__(self, x, v):
        if x.mine:
            self.val, self.has = v, True

    def __getitem__(self, x):
        return self.val if x.mine else self.other()

    def get(self, x, default=None):
        return self[x] if x in self else default

    def pop(self, x, *default):
        v = self.get(x, *default)
        self.discard(x)
        return v

    def setdefault(self, x, v):
        if x not in self:
            self[x] = v
        return self[x]


def stop_any(ctx):
    """any number of services, seen from one of them"""
    if not ctx.sym:
        return stop_services(ctx)
    mod = load("aiomisc.entrypoint", transform=True)
    need(mod.Entrypoint, "stop_services")
    mod.log = aio.Sink()
    log = []
    ep = make(ctx, mod, log)
    reason = ctx.pick((None, Failed("reason"), KeyboardInterrupt("reason")), "reason")
    ep._closing = ctx.pick((None, aio.Sink()), "closing")
    st = {"cancelled": False}
    n = ctx.int("n", 0)
    j = ctx.int("j", 0)
    ctx.assume(j < n)

    class Svc:
        def __init__(self, mine):
            self.mine, self.stops, self.k = mine, 0, None

        def stop(self, exc=None):
            ctx.check(log == ["pre_stop"], "PRE_STOP comes before any stop")
            ctx.check(exc is reason, "stop gets the reason of leaving")
            self.stops += 1
            self.k = ctx.pick(("ok", "fails", "mismatch", "plain"), "stop")
            if self.k == "mismatch":
                raise TypeError("signature")
            if self.k == "plain":
                return None

            async def co():
                pass
            c = self.coro = co()
            owner[id(c)] = self
            return c

        def __bool__(self):
            return self.mine

    owner = {}

    class STask(Task):
        def __init__(self, coro, svc):
            super().__init__(coro)
            self.svc, self.mine = svc, svc.mine

    class L:
        def create_task(self, c):
            return STask(c, owner[id(c)])

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    ep._loop = L()
    mine = Svc(True)
    before = ctx.choose(2, "already being stopped")
    if before:
        async def co():
            pass
        mine.k = ctx.pick(("ok", "fails"), "stop")
        mine.task0 = STask(co(), mine)
    ep._services = OneSet(ctx, ctx.choose(2, "started here"), "services")

    def other_task():
        async def co():
            pass
        o = Svc(False)
        o.k = "ok"
        return STask(co(), o)
    if not isinstance(getattr(ep, "_stop_tasks", {}), dict):
        raise core.Unsupported("stop tasks are kept in another way")
    ep._stop_tasks = OneMap(ctx, mine.task0 if before else None, other_task, "stop tasks")

    class Tasks(SymSeq):
        """the tasks collected so far; is ours among them?"""

        def __init__(self, num, t):
            SymSeq.__init__(self, num, None, "tasks")
            self.t = t

        vc_num = property(lambda self: self.n)

        def append(self, t):
            self.n = self.n + 1
            if getattr(t, "mine", False):
                self.t = t

        add = append

        def __iter__(self):
            raise core.Unsupported("iterating over the tasks")

    def obj(c, nm, v):
        if isinstance(v, (list, set)) and not v:
            t = Tasks(c.int("tasks", 0), None)
            G["tasks"] = t
            if c.iter_index is not None and c.iter_index != 0 and mine_in(c):
                t.t = ep._stop_tasks.val
            return t
        if isinstance(v, Tasks):
            t = Tasks(c.int("tasks", 0), v.t)
            return t
        return v
    G = {"phase": 0}

    def mine_in(c):
        return False

    def havoc(c):
        pass

    def inv(c):
        return []
    ctx.loops = {("for",): Cut(havoc, inv, obj=obj)}

    def task():
        t = ep._stop_tasks.val
        return t if t is not None else G.get("task")

    def end(t):
        t.state = ("ret", None) if t.svc.k == "ok" else ("exc", boom)
    boom = Failed("mine")

    class Gather:
        def __vc_symcall__(self, seq, **kw):
            if not isinstance(seq, Tasks):
                raise core.Unsupported("gather of something else")
            return self.go(seq, kw)

        def __call__(self, *a, **kw):
            ctx.check(not (mine.k in ("ok", "fails")), "every stop is waited for")
            t = Tasks(len(a), None)
            return self.go(t, kw)

        async def go(self, seq, kw):
            G["task"] = seq.t
            re = kw.pop("return_exceptions", False)
            if kw:
                raise core.Unsupported("gather(%s)" % sorted(kw))
            k = ctx.pick(("all ended", "cancelled", "other fails"), "gather")
            if k == "cancelled":
                st["cancelled"] = True
                if seq.t is not None and ctx.choose(2, "ended before"):
                    end(seq.t)
                await Suspend("gather")
                raise asyncio.CancelledError()
            await Suspend("gather")
            if k == "other fails" and not re:
                if seq.t is not None and ctx.choose(2, "ended before"):
                    end(seq.t)
                raise Failed("other")
            if seq.t is not None:
                end(seq.t)
                if not re and seq.t.state[0] == "exc":
                    raise boom
            k2 = ctx.int("position", 0)
            ctx.assume(k2 < seq.n)
            has = seq.t is not None
            return SymSeq(seq.n, lambda i: seq.t.state[1], "results", k2 if has else None,
                          lambda: ctx.pick((None, 5, Failed("other")), "another result"))

    class Wait:
        def __init__(self, *a, **kw):
            raise core.Unsupported("wait")
    mod.asyncio = NS(asyncio, gather=Gather(), wait=Wait)

    async def fake_cancel(ts):
        if not isinstance(ts, (Tasks, list, tuple, set)):
            raise core.Unsupported("cancel_tasks of something else")
        t = ts.t if isinstance(ts, Tasks) else None
        if t is not None and not t.done():
            ctx.check(st["cancelled"], "a failing stop does not interrupt the others")
            t.state = ("exc", asyncio.CancelledError())
        await Suspend("cancel")
    mod.cancel_tasks = fake_cancel

    def handler(req):
        if req.kind == "signal" and req.args[0] == "post_stop":
            t = task()
            if mine.k in ("ok", "fails"):
                ctx.check(t is not None and t.done(), "POST_STOP comes after all stops")
            G["post"] = True
        return Ret(None)
    from pyvc.load import vc_call
    svcs = SymSeq(n, lambda i: mine, "services", j, lambda: Svc(False))
    status, got = drive(vc_call(ep.stop_services, ((True, svcs),), exc=reason), handler)
    ctx.check(mine.stops == (0 if before else 1), "every service is stopped exactly once")
    ctx.check(not ep._services.has, "a stopped service is not stopped again")
    ctx.check(log == ["pre_stop", "post_stop"], "PRE_STOP and POST_STOP once, in order")
    if st["cancelled"]:
        ctx.check(status == "exc", "cancellation passes through")
    elif mine.k == "fails":
        ctx.check(status == "exc" and isinstance(got, Failed), "a failing stop is reported")
    else:
        ctx.check(status == "ret" or isinstance(got, Failed), "nothing else is raised", got)
    ctx.cover("stopped %s" % mine.k)

class Star:
    """start_services/stop_services through their contract"""

    def __init__(self, ctx, G, name, n):
        self.ctx, self.G, self.name, self.n = ctx, G, name, n

    def __vc_symcall__(self, seq, **kw):
        return self.go(seq, kw)

    def __call__(self, *a, **kw):
        return self.go(a, kw)

    async def go(self, seq, kw):
        ctx, G = self.ctx, self.G
        G[self.name] = G.get(self.name, 0) + 1
        G["kw"] = kw
        if isinstance(seq, SymSeq):
            ctx.check(seq is G["services"], "every service is handed over")
        else:
            ctx.check(set(seq) == set(G["services"]) and len(seq) == len(G["services"]),
                      "every service is handed over")
        k = ctx.pick(("ok", "fails", "cancelled"), self.name)
        await Suspend(self.name)
        if k == "fails":
            G["err"] = Failed(self.name)
        elif k == "cancelled":
            G["err"] = asyncio.CancelledError()
        if k != "ok":
            raise G["err"]


def some_services(ctx, G):
    if ctx.sym:
        n = ctx.int("n", 0)
        G["services"] = SymSeq(n, lambda i: object(), "services")
    else:
        G["services"] = {object() for _ in range(ctx.choose(4, "n"))}
    return G["services"]


def leave(ctx):
    """leaving the entrypoint: every service is handed to stop_services with
    the reason, whatever fails on the way"""
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod.Entrypoint, "stop_services", "__aexit__")
    mod.log = aio.Sink()
    log, G = [], {}
    ep = make(ctx, mod, log)
    ep._services = some_services(ctx, G)
    ep.log_config = False
    ep.stop_services = Star(ctx, G, "stop", None)
    ep._closing = ctx.pick((None, aio.Sink()), "closing")
    owner = ep._loop_owner = bool(ctx.choose(2, "loop owner"))

    class Cx:
        closed = 0

        def close(self):
            self.closed += 1

    class H:
        restored = 0

        def restore(self):
            self.restored += 1

    class T:
        def __init__(self):
            self.over = False

        def done(self):
            return self.over

    class L:
        closed = False

        def is_closed(self):
            return self.closed

        async def shutdown_asyncgens(self):
            await Suspend("asyncgens")

        async def shutdown_default_executor(self):
            await Suspend("executor")
            G["executor"] = G.get("executor", 0) + 1

        def create_task(self, c):
            raise core.Unsupported("create_task")

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    cx, hs = Cx(), [H(), H()]
    ep.ctx, ep._signal_handlers = cx, list(hs)
    ep._loop = L()
    ep._loop.closed = bool(ctx.choose(2, "loop is closed"))
    ep._thread_pool = ctx.pick((None, object()), "pool")
    still = [T() for _ in range(ctx.choose(3, "starts still running"))]
    ep._tasks = set(still)
    others, me = {T(), T()}, T()
    mod.asyncio_all_tasks = lambda loop=None: {*others, me}
    mod.asyncio_current_task = lambda loop=None: me

    async def fake_cancel(ts):
        ts = list(ts)
        await Suspend("cancel")
        for t in ts:
            t.over = True
    mod.cancel_tasks = fake_cancel
    reason = ctx.pick((None, Failed("reason"), KeyError(1), asyncio.CancelledError()), "reason")
    status, got = drive(ep.__aexit__(type(reason), reason, None), lambda q: Ret(None))
    if ep._loop.closed:
        ctx.check("stop" not in G, "nothing runs in a closed loop")
        ctx.cover("closed")
        return
    ctx.check(G.get("stop") == 1, "every service is handed over once")
    ctx.check(G["kw"].get("exc", None) is reason, "stop gets the reason of leaving")
    ctx.check(all(t.over for t in still), "a start still running is ended")
    ctx.check(cx.closed >= 1, "the context is closed")
    if owner and not isinstance(G.get("err"), asyncio.CancelledError):
        ctx.check(all(t.over for t in others), "the tasks which still run in the loop of the entrypoint are ended")
    elif not owner:
        ctx.check(not any(t.over for t in others), "the tasks of another's loop are left alone")
    ctx.check(not me.over, "leaving does not cancel itself")
    if "err" in G:
        ctx.check(status == "exc" and got is G["err"], "a failing stop is reported")
        ctx.cover("failed")
    else:
        ctx.check(status == "ret" and not got, "leaving succeeds and does not hide the exception of the body")
        ctx.cover("left")


def enter(ctx):
    """entering the entrypoint: every service given is handed to start_services"""
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod.Entrypoint, "start_services", "__aenter__")
    mod.log = aio.Sink()
    log, G = [], {}
    ep = make(ctx, mod, log)
    need(mod.Entrypoint(log_config=False, catch_signals=()), "_Entrypoint__passed_services")
    ep._Entrypoint__passed_services = some_services(ctx, G)
    ep.start_services = Star(ctx, G, "start", None)
    ep.log_config = False
    ep.ctx = None

    class H:
        applied = 0

        def apply(self):
            self.applied += 1
    ep._signal_handlers = [H()]
    frozen = []
    ep._loop = ctx.pick((None, object()), "loop")
    for n in ("pre_start", "post_start", "pre_stop", "post_stop"):
        getattr(ep, n).freeze = lambda n=n: frozen.append(n)
    mod.Context = lambda loop=None, **kw: aio.Sink()
    mod.asyncio = NS(asyncio, get_running_loop=lambda: G.setdefault("running", object()))
    status, got = drive(ep.__aenter__(), lambda q: Ret(None))
    ctx.check(G.get("start") == 1, "every service is handed over once")
    ctx.check(sorted(frozen) == ["post_start", "post_stop", "pre_start", "pre_stop"], "its signals are frozen", frozen)
    if "err" in G:
        ctx.check(status == "exc" and got is G["err"], "a failing start is raised")
        ctx.cover("failed")
    else:
        ctx.check(status == "ret" and got is ep, "entering gives the entrypoint", got)
        ctx.cover("entered")


HARNESSES = [("enter", enter), ("leave", leave), ("start_service", start_service), ("start_services", start_services),
             ("stop_services (any number)", stop_any), ("stop_services", stop_services)]


# ------------------------------------------------------------- executions

def fuzz(rng, interrupt=False):
    import importlib
    from pyvc import simloop
    epm = importlib.import_module("aiomisc.entrypoint")
    svm = importlib.import_module("aiomisc.service.base")
    log = []
    starts, stops, ended, reasons = {}, {}, {}, {}
    running = set()
    p_start = rng.choice((0, 0, 0.3)) if not interrupt else 0
    p_stop = rng.choice((0, 0.3, 0.8))

    def d():
        return rng.choice((0, 0, rng.random() * 5))

    class Svc(svm.Service):
        async def start(self):
            i = self.idx
            starts[i] = starts.get(i, 0) + 1
            assert log[:1] == ["pre_start"], "start before PRE_START"
            await asyncio.sleep(self.d1) if self.d1 else None
            if self.mode == "fail":
                ended[i] = "failed"
                raise Failed("start", i)
            if self.mode == "return":
                ended[i] = "ok"
                return None
            self.start_event.set()
            ended[i] = "ok"
            running.add(i)
            try:
                if self.mode == "ready":
                    await asyncio.sleep(1e5)
                else:
                    await asyncio.sleep(self.d1)
            finally:
                running.discard(i)

        async def stop(self, exception=None):
            i = self.idx
            stops[i] = stops.get(i, 0) + 1
            reasons[i] = exception
            assert "pre_stop" in log and "post_stop" not in log, "stop outside of PRE_STOP/POST_STOP"
            try:
                if self.d2:
                    await asyncio.sleep(self.d2)
                if self.stopfail:
                    raise Failed("stop", i)
                ended[i] = "stopped"
            except asyncio.CancelledError:
                ended[i] = "stop interrupted"
                raise

    async def main(loop):
        n = rng.randint(0, 6)
        svcs = [Svc(idx=i, d1=d(), d2=d(), stopfail=rng.random() < p_stop,
                    mode="fail" if rng.random() < p_start else rng.choice(
                        ("return", "ready", "ready then return")))
                for i in range(n)]
        handed = list(svcs)
        if svcs and rng.random() < 0.2:
            handed.append(svcs[0])
        ep = epm.Entrypoint(*handed, log_config=False, catch_signals=())
        for name in ("pre_start", "post_start", "pre_stop", "post_stop"):
            def mk(name):
                async def rec(**kw):
                    assert set(kw) == {"entrypoint", "services"} and kw["entrypoint"] is ep, "receivers get %r" % kw
                    assert set(kw["services"]) <= set(svcs) and (
                        name == "post_stop" or interrupt or set(kw["services"]) == set(svcs)), "receivers get %r" % kw
                    if rng.random() < 0.5:
                        await asyncio.sleep(rng.random())
                    if name == "post_start" and not any(s.mode == "fail" for s in svcs):
                        for i in range(n):
                            assert ended.get(i) == "ok", "POST_START before service %d is up" % i
                    if name == "pre_stop" and dynamic == 0:
                        assert not stops, "PRE_STOP after a stop"
                    if name == "post_stop" and not interrupt:
                        for i in range(n):
                            if i in stops:
                                assert i in ended and ended[i] != "ok" or svcs[i].stopfail, \
                                    "POST_STOP before service %d has stopped" % i
                    log.append(name)
                return rec
            getattr(ep, name).connect(mk(name))
        dynamic = 0
        reason = None
        body = rng.choice((None, Failed("body"), KeyError("x")))
        if interrupt:
            body = None
        raised = None
        t0 = loop.time()
        try:
            async with ep:
                assert log == ["pre_start", "post_start"], "signals %r" % log
                assert loop.time() < t0 + 1e4, "waits for a service which signalled readiness"
                for i in range(n):
                    assert starts.get(i) == 1, "service %d started %r times" % (i, starts.get(i))
                assert set(ep.services) == set(svcs), "services"
                if not interrupt:
                    await asyncio.sleep(d())
                else:
                    loop.call_later(d(), ep._on_interrupt_callback, 15)
                    real_stop = loop.stop
                    loop.stop = lambda: None
                    await ep.closing()
                    if rng.random() < 0.5:
                        await asyncio.sleep(rng.random() * 3)
                if body is not None:
                    raise body
        except BaseException as e:
            raised = e
        finally:
            if interrupt:
                await asyncio.sleep(100)
                loop.stop = real_stop
        if any(s.mode == "fail" for s in svcs):
            assert isinstance(raised, Failed) and raised.args[0] == "start", \
                "the failing start is not raised but %r" % (raised,)
            assert ended[raised.args[1]] == "failed"
            await asyncio.sleep(100)
            for i in range(n):
                assert starts.get(i) == 1, "service %d started %r times" % (i, starts.get(i))
            return
        for i in range(n):
            assert starts.get(i) == 1, "service %d started %r times" % (i, starts.get(i))
            assert stops.get(i) == 1, "service %d stopped %r times" % (i, stops.get(i))
            if not interrupt:
                assert reasons[i] is body, "reason %r, expected %r" % (reasons[i], body)
            if svcs[i].stopfail:
                assert ended[i] != "stop interrupted", "stop of %d was interrupted" % i
            else:
                assert ended[i] == "stopped", "service %d: %s" % (i, ended[i])
        assert not running, "start of %r still running" % running
        if interrupt:
            assert log[:3] == ["pre_start", "post_start", "pre_stop"], log
            assert not ep.services
            for i in range(n):
                assert reasons[i] is None or isinstance(reasons[i], RuntimeError), \
                    "reason %r" % reasons[i]
            return
        assert log == ["pre_start", "post_start", "pre_stop", "post_stop"], "signals %r" % log
        assert not ep.services, "services left"
        if any(s.stopfail for s in svcs):
            assert isinstance(raised, Failed) and raised.args[0] == "stop", \
                "the failing stop is not raised but %r" % (raised,)
        else:
            assert raised is body, repr(raised)
    simloop.run(main)


def fuzz_interrupt(rng):
    fuzz(rng, interrupt=True)


def fuzz_dynamic(rng):
    """start_services/stop_services of a running entrypoint"""
    import importlib
    from pyvc import simloop
    epm = importlib.import_module("aiomisc.entrypoint")
    svm = importlib.import_module("aiomisc.service.base")
    starts, stops = {}, {}

    class Svc(svm.Service):
        async def start(self):
            starts[self.idx] = starts.get(self.idx, 0) + 1
            if self.d:
                await asyncio.sleep(self.d)

        async def stop(self, exception=None):
            if self.d:
                await asyncio.sleep(self.d)
            stops[self.idx] = stops.get(self.idx, 0) + 1

    async def main(loop):
        svcs = [Svc(idx=i, d=rng.choice((0, 1, 2))) for i in range(rng.randint(1, 6))]
        async with epm.Entrypoint(log_config=False, catch_signals=()) as ep:
            up = set()
            es, ep_ = {i: 0 for i in range(len(svcs))}, {i: 0 for i in range(len(svcs))}
            for _ in range(rng.randint(1, 8)):
                grp = [s for s in svcs if rng.random() < 0.4]
                if rng.random() < 0.5:
                    grp = [s for s in grp if s.idx not in up]
                    await ep.start_services(*grp)
                    for s in grp:
                        es[s.idx] += 1
                        up.add(s.idx)
                else:
                    grp = [s for s in grp if s.idx in up]
                    await ep.stop_services(*grp)
                    for s in grp:
                        ep_[s.idx] += 1
                        up.discard(s.idx)
                assert {s.idx for s in ep.services} == up, "services"
                assert {k: v for k, v in es.items() if v} == starts, "starts"
                assert {k: v for k, v in ep_.items() if v} == stops, "stops"
        for i in up:
            ep_[i] += 1
        assert {k: v for k, v in ep_.items() if v} == stops, "stops at the end"
    simloop.run(main)


FUZZ = [("lifecycle", fuzz), ("interrupt", fuzz_interrupt),
        ("dynamic", fuzz_dynamic)]
FUZZ_S = 6
