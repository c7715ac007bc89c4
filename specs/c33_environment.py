"""C33: loop, pool, logging, signals and defaults of an entrypoint."""
import asyncio
import gc
import logging
import os
import signal
import sys
import threading
import time

from pyvc import aio, core
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, drive
from pyvc.load import load, need

from .c26_servers import Thing, guard

ASSUME = ["asyncio: a policy makes loops; run_until_complete runs a coroutine to its end; call_soon_threadsafe runs its "
          "function in the loop; a done callback which raises SystemExit ends the process with its code",
          "signal.signal installs a handler and getsignal gives the installed one",
          "basic_config (C29), Context (C21), cancel_tasks (C08) and the thread pool (C16) keep their contracts",
          "services are started and stopped as C07 says"]
BOUNDED = {"defaults": "the values of the environment variables are taken from a list"}
CONTRACTS = ["create_default_event_loop/new_event_loop", "Entrypoint.__init__/__enter__/__exit__/__aenter__/__aexit__/__del__/loop",
             "Entrypoint._start/_stop/graceful_shutdown/closing", "Entrypoint._on_interrupt_callback/_on_interrupt",
             "OSSignalHandler", "_get_env_bool/_get_env_convert", "run"]


class Failed(Exception):
    pass


# ------------------------------------------------------------ making loops

def making(ctx):
    """create_default_event_loop, new_event_loop: one loop of the policy, set
    up, unless one is running"""
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "create_default_event_loop", "new_event_loop", "ThreadPoolExecutor")
    before = ctx.pick(("none", "stopped", "running"), "loop of the thread")
    log = {"loops": [], "pools": [], "current": None}

    class Old:
        def is_running(self):
            return before == "running"

        def is_closed(self):
            return False

    class L:
        executor = dbg = None

        def set_debug(self, v):
            self.dbg = v

        def set_default_executor(self, p):
            self.executor = p

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)

    class Policy:
        def new_event_loop(self):
            lp = L()
            lp.policy = self
            log["loops"].append(lp)
            return lp

        def set_event_loop(self, lp):
            log["current"] = lp
    usual = Policy()
    st = {"policy": usual}

    def get_event_loop():
        if before == "none":
            raise RuntimeError("There is no current event loop")
        return Old()

    def get_running_loop():
        if before != "running":
            raise RuntimeError("no running event loop")
        return Old()

    def set_policy(p):
        st["policy"] = p

    def set_loop(lp):
        st["policy"].set_event_loop(lp)

    def _running():
        return Old() if before == "running" else None
    mod.asyncio = NS(asyncio, get_event_loop=get_event_loop, get_running_loop=get_running_loop,
                     _get_running_loop=_running, set_event_loop_policy=set_policy, set_event_loop=set_loop,
                     get_event_loop_policy=lambda: st["policy"],
                     new_event_loop=lambda: st["policy"].new_event_loop())
    real_pool = mod.ThreadPoolExecutor

    class Pool:
        DEFAULT_POOL_SIZE = real_pool.DEFAULT_POOL_SIZE

        def __init__(self, max_workers=None, **kw):
            self.size = max_workers
            log["pools"].append(self)
    mod.ThreadPoolExecutor = Pool
    own = Policy()
    kw = {}
    given = ctx.choose(2, "policy given")
    if given:
        kw["policy"] = own
    else:
        # the default policy is bound at definition
        import inspect
        f = getattr(mod.create_default_event_loop, "__wrapped__", mod.create_default_event_loop)
        dflt = inspect.signature(f).parameters["policy"].default
        if not hasattr(dflt, "new_event_loop"):
            raise core.Unsupported("default policy")
        kw["policy"] = own
    size = ctx.pick(("default", None, "number"), "pool size")
    if size == "number":
        kw["pool_size"] = ctx.int("pool_size", 1)
    elif size is None:
        kw["pool_size"] = None
    which = ctx.pick(("create", "new"), "function")
    debug = False
    if which == "create":
        debug = ctx.pick((False, True), "debug")
        if debug or ctx.choose(2, "debug given"):
            kw["debug"] = debug
    try:
        got = (mod.create_default_event_loop if which == "create" else mod.new_event_loop)(**kw)
    except RuntimeError as e:
        ctx.check(before == "running", "a loop can be made unless one is running", e)
        ctx.check(not log["loops"] and not log["pools"], "nothing is made beside a running loop")
        ctx.cover("refused")
        return
    ctx.check(before != "running", "no loop is made beside a running one")
    lp = got[0] if which == "create" else got
    ctx.check(log["loops"] == [lp] and lp.policy is own, "one loop, of the given policy, is made")
    ctx.check(log["current"] is lp, "it is the loop of the thread")
    ctx.check(bool(lp.dbg) == bool(debug), "debug mode as asked for")
    ctx.check(len(log["pools"]) == 1 and lp.executor is log["pools"][0], "it has one pool")
    if which == "create":
        ctx.check(got[1] is lp.executor, "the pool is returned")
    want = kw["pool_size"] if size == "number" else Pool.DEFAULT_POOL_SIZE
    ctx.check(lp.executor.size == want, "of the given size")
    ctx.cover(which)


# ------------------------------------------------------------- a world

class W:
    pass


class Handle:
    def __init__(self, delay, f, args):
        self.delay, self.f, self.args, self.off = delay, f, args, False

    def cancel(self):
        self.off = True

    def cancelled(self):
        return self.off


class STask:
    """the task of the shutdown"""

    def __init__(self, w, coro):
        self.w, self.coro, self.cbs, self.req, self.state = w, coro, [], False, None
        w.tasks.append(self)

    def add_done_callback(self, f, **kw):
        self.cbs.append(f)

    def cancel(self, msg=None):
        if self.state is None:
            self.req = True
        return self.state is None

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.state is not None and isinstance(self.state[1], asyncio.CancelledError)

    def exception(self):
        if self.cancelled():
            raise self.state[1]
        return self.state[1] if self.state[0] == "exc" else None

    def result(self):
        if self.state[0] == "exc":
            raise self.state[1]
        return self.state[1]


def world(ctx):
    w = W()
    w.ctx, w.table, w.config, w.early, w.tasks, w.timers, w.soon, w.made = ctx, {}, [], [], [], [], [], []
    w.stops, w.ctxs, w.over, w.sys_exit = [], [], False, None
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod, "Entrypoint", "OSSignalHandler", "create_default_event_loop", "basic_config", "Context", "cancel_tasks",
         "CURRENT_ENTRYPOINT", "EVENT_LOOP", "aiomisc_log", "signal")
    mod.log = Sink()
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1):
        w.table[s] = Thing("former handler of %s" % s)
    w.former = dict(w.table)

    def set_handler(sig, h):
        old = w.table.get(sig)
        w.table[sig] = h
        return old
    mod.signal = NS(signal, signal=set_handler, getsignal=lambda s: w.table.get(s))
    w.main = bool(ctx.choose(2, "main thread"))
    main, other = Thing("main thread"), Thing("other thread")
    mod.threading = NS(threading, current_thread=lambda: main if w.main else other, main_thread=lambda: main)

    class Var:
        def __init__(self):
            self.v = None

        def set(self, v):
            self.v = v

        def get(self):
            if self.v is None:
                raise RuntimeError("not set")
            return self.v
    w.cur, w.evl = mod.CURRENT_ENTRYPOINT, mod.EVENT_LOOP
    w.cur, w.evl = Var(), Var()
    mod.CURRENT_ENTRYPOINT, mod.EVENT_LOOP = w.cur, w.evl

    class L:
        """an event loop"""
        closed = running = False
        stopped = executor_down = asyncgens = 0

        def is_closed(self):
            return self.closed

        def is_running(self):
            return self.running

        def close(self):
            if w.over:
                return
            if self.running:
                raise RuntimeError("Cannot close a running event loop")
            self.closed = True

        def run_until_complete(self, coro):
            if self.closed:
                aio.close_coro(coro)
                raise RuntimeError("Event loop is closed")
            self.running = True
            before = w.cur.v, w.evl.v
            try:
                status, got = drive(coro, w.handler)
            finally:
                self.running = False
                # a task has its own copy of the context variables
                w.cur.v, w.evl.v = before
            if status == "exc":
                raise got
            return got

        async def shutdown_asyncgens(self):
            await Suspend("asyncgens")
            self.asyncgens += 1

        async def shutdown_default_executor(self, *a):
            await Suspend("executor")
            self.executor_down += 1

        def call_soon_threadsafe(self, f, *a, **kw):
            w.soon.append((f, a))

        def call_soon(self, f, *a, **kw):
            if w.in_signal:
                ctx.check(False, "a signal wakes the loop")
            w.soon.append((f, a))

        def call_later(self, delay, f, *a, **kw):
            h = Handle(delay, f, a)
            w.timers.append(h)
            return h

        def create_task(self, coro, **kw):
            return STask(w, coro)

        def stop(self):
            self.stopped += 1

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    w.Loop = L
    w.in_signal = False
    w.running_loop = L()

    def make(pool_size=None, policy=None, debug=False):
        lp = L()
        lp.args = (pool_size, policy, debug)
        lp.pool = Thing("pool")
        w.made.append(lp)
        return lp, lp.pool
    mod.create_default_event_loop = make

    class Cx:
        def __init__(self, loop):
            self.loop, self.closed = loop, 0
            w.ctxs.append(self)

        def close(self):
            self.closed += 1
    mod.Context = Cx

    class Event:
        def __init__(self):
            self.flag = False

        def set(self):
            self.flag = True

        def clear(self):
            self.flag = False

        def is_set(self):
            return self.flag

        async def wait(self):
            await Suspend("event", self)
            return True

    def running():
        if not w.running_loop.running:
            raise RuntimeError("no running event loop")
        return w.running_loop
    mod.asyncio = NS(asyncio, Event=Event, get_running_loop=running, get_event_loop=running)
    mod.asyncio_all_tasks = lambda loop=None: set()
    mod.asyncio_current_task = lambda loop=None: None

    async def fake_cancel(ts):
        list(ts)
        await Suspend("cancel")
    mod.cancel_tasks = fake_cancel

    def full_config(**kw):
        w.config.append(kw)

    class Log:
        @staticmethod
        def basic_config(**kw):
            w.early.append(kw)
    mod.basic_config = full_config
    mod.aiomisc_log = Log
    w.mod = mod
    w.handler = lambda q: Ret(None)
    return w


LOG_ARGS = {"log_level": "level", "log_format": "log_format", "log_date_format": "date_format"}


def make_ep(w, full=True):
    """an entrypoint with some of its arguments given"""
    ctx, mod = w.ctx, w.mod
    kw = {}
    w.given = ctx.pick((None, "loop"), "loop")
    if w.given:
        kw["loop"] = w.given = w.Loop()
    w.log_config = bool(ctx.choose(2, "log_config"))
    kw["log_config"] = w.log_config
    if w.log_config:
        for n in LOG_ARGS:
            kw[n] = Thing(n)
        w.log_handlers = [Thing("h1"), Thing("h2")]
        kw["log_handlers"] = iter(w.log_handlers) if ctx.choose(2, "an iterator") else list(w.log_handlers)
        kw["log_buffering"] = bool(ctx.choose(2, "buffering"))
        kw["log_buffer_size"] = ctx.int("buffer", 0)
        kw["log_flush_interval"] = ctx.real("flush", 0)
    w.sigs = ctx.pick(("default", "none", "one"), "catch_signals")
    if w.sigs == "none":
        kw["catch_signals"] = ()
    elif w.sigs == "one":
        kw["catch_signals"] = (signal.SIGUSR1,)
    w.want = {"none": (), "one": (signal.SIGUSR1,),
              "default": (signal.SIGINT, signal.SIGTERM) if w.main else ()}[w.sigs]
    kw["policy"] = Thing("policy")
    kw["debug"] = Thing("debug")
    kw["pool_size"] = ctx.int("pool_size", 1)
    kw["shutdown_timeout"] = w.timeout = ctx.real("timeout", 0)
    w.kw = kw
    w.services = [Thing("service")]
    ep = mod.Entrypoint(*w.services, **kw)
    need(ep, "start_services", "stop_services")
    w.ep = ep
    w.started, w.leaving = [], False
    w.boom = Failed("start")

    async def start_services(*svc):
        w.started.append(svc)
        ctx.check(set(svc) == set(w.services), "the given services are started")
        ctx.check(w.evl.v is w.loop() and w.cur.v is ep, "services find the entrypoint and the loop")
        logging_is_set(w, start=True)
        ctx.check(w.table == w.former, "signals are not caught while starting")
        await Suspend("start")
        if ctx.choose(2, "starting fails"):
            w.failed = True
            raise w.boom

    async def stop_services(*svc, exc=None):
        w.stops.append(exc)
        logging_is_set(w, start=False)
        ctx.check(w.table == w.former, "the former handlers of the signals are restored when the shutdown begins")
        ctx.check(not w.loop().closed and not w.loop().executor_down and all(not c.closed for c in w.ctxs),
                  "services are stopped while the loop, its pool and the context can be used")
        await Suspend("stop")
        if not getattr(w, "stop_failed", None) and ctx.choose(2, "stopping fails"):
            w.stop_failed = Failed("stop")
            raise w.stop_failed
    ep.start_services, ep.stop_services = start_services, stop_services
    w.failed = False
    return ep


def logging_is_set(w, start):
    ctx = w.ctx
    if not w.log_config:
        ctx.check(not w.config and not w.early, "logging is left alone without log_config")
        return
    ctx.check(bool(w.config), "logging is configured")
    c = w.config[-1]
    for n, k in LOG_ARGS.items():
        ctx.check(c.get(k) is w.kw[n], "logging is configured with " + n, c.get(k))
    ctx.check(list(c.get("handlers", ())) == w.log_handlers, "logging is configured with log_handlers", c.get("handlers"))
    # (a loop which was made is the current one of the thread)
    lp = c.get("loop")
    ctx.check(lp is w.loop() or (lp is None and not start and w.loop() in w.made), "logging is configured for the loop")
    if start:
        ctx.check(c.get("buffered", True) == w.kw["log_buffering"], "logging is configured with log_buffering")
        ctx.check(bool(c.get("buffer_size", 0) == w.kw["log_buffer_size"]), "logging is configured with log_buffer_size")
        ctx.check(bool(c.get("flush_interval", 0.2) == w.kw["log_flush_interval"]),
                  "logging is configured with log_flush_interval")


def life(ctx):
    """entering and leaving: one loop, closed by its owner; pool, context,
    logging and signals"""
    w = world(ctx)
    mod = w.mod
    ep = make_ep(w)
    kind = ctx.pick(("with", "async with"), "kind")
    if w.log_config:
        ctx.check(len(w.early) >= 1, "logging is configured at once")
        for n, k in LOG_ARGS.items():
            ctx.check(w.early[-1].get(k) is w.kw[n], "logging is configured at once with " + n)
    ctx.check(not w.made, "no loop is made before it is needed")
    ctx.check(w.cur.v is ep, "the entrypoint is the current one")
    ctx.check(w.table == w.former, "signals are not caught before the start")

    def loop():
        if w.given:
            return w.given
        if kind == "async with":
            return w.running_loop
        return w.made[0] if w.made else None
    w.loop = loop
    reason = ctx.pick((None, Failed("body"), KeyboardInterrupt()), "body")
    closed = False
    if kind == "with":
        try:
            got = ep.__enter__()
            status = "ret"
        except Failed as e:
            status, got = "exc", e
    else:
        w.running_loop.running = True
        if w.given:
            w.given.running = True
            w.running_loop = w.given
        status, got = drive(ep.__aenter__(), w.handler)
    ctx.check(len(w.started) == 1, "services are started once")
    if w.failed:
        ctx.check(status == "exc" and got is w.boom, "a failing start is raised", got)
        ctx.check(w.table == w.former, "a failing start leaves signals alone")
    else:
        ctx.check(status == "ret" and got is (loop() if kind == "with" else ep), "entering gives the loop (the entrypoint)", got)
        for s in w.former:
            ctx.check((w.table[s] is w.former[s]) == (s not in w.want), "the signals asked for are caught, and no others", s)
        ctx.check(w.evl.v is loop() and w.cur.v is ep, "loop and entrypoint are the current ones")
        ctx.check(len(w.ctxs) == 1 and w.ctxs[0].loop is loop() and not w.ctxs[0].closed, "there is a context of the loop")
        ctx.check(ep.loop is loop() and ep.ctx is w.ctxs[0], "loop and context are known")
        if kind == "with":
            closed = ctx.choose(2, "closed by the body") if reason is None else False
            if closed:
                loop().closed = True
            try:
                res = ep.__exit__(type(reason), reason, None)
                status, err = "ret", None
            except BaseException as e:
                if isinstance(e, (core.PathEnd, core.Unsupported, core.Discard, core.Restart)):
                    raise
                status, err, res = "exc", e, None
        else:
            status, err = drive(ep.__aexit__(type(reason), reason, None), w.handler)
            res = err if status == "ret" else None
        if closed:
            ctx.check(not w.stops and status == "ret" and not res, "leaving does nothing when the body closed the loop", err)
        else:
            ctx.check(w.stops == [reason], "services are stopped once, with the reason", w.stops)
            ctx.check(not res, "the exception of the body is not hidden")
            bad = getattr(w, "stop_failed", None)
            ctx.check((status == "exc" and err is bad) if bad else status == "ret", "leaving fails with a failing service only", err)
            ctx.check(w.table == w.former, "the former handlers of the signals are restored")
            ctx.check(w.ctxs[0].closed >= 1, "the context is closed")
            ctx.check(loop().asyncgens, "asynchronous generators are closed")
    owner = kind == "with" and not w.given
    if owner:
        ctx.check(len(w.made) == 1, "one loop is made", len(w.made))
        ps, po, de = w.made[0].args
        ctx.check(bool(ps == w.kw["pool_size"]) and po is w.kw["policy"] and de is w.kw["debug"],
                  "it is made with the given pool size, policy and debug mode")
        if not w.failed and not closed:
            ctx.check(loop().executor_down == 1, "the pool is shut down")
        ctx.check(loop().closed, "the loop (and its pool) is closed")
        ctx.check(closed or all(c.closed for c in w.ctxs), "the context is closed")
        ctx.cover("own loop")
        w.made[0].running = False
        ep.__del__()
        ctx.check(loop().closed, "the loop is closed when the entrypoint is dropped")
    else:
        ctx.check(not w.made, "no other loop is made")
        ctx.check(closed or not loop().closed, "a loop which was given is left open")
        ctx.check(not loop().executor_down, "the pool of a loop which was given is left running")
        ep.__del__()
        ctx.check(closed or not loop().closed, "a loop which was given is not closed when the entrypoint is dropped")
        ctx.cover("given loop")
    w.over = True


def interrupt(ctx):
    """each of the signals begins the shutdown, which takes at most
    shutdown_timeout"""
    w = world(ctx)
    ctx.assume(w.main)
    ep = make_ep(w)
    ctx.assume(bool(w.want))
    ctx.assume(not w.log_config)
    lp = w.Loop()
    if w.given:
        lp = w.given
    else:
        w.running_loop = lp
    w.loop = lambda: lp
    lp.running = True
    status, got = drive(ep.__aenter__(), w.handler)
    ctx.assume(status == "ret")
    sig = w.want[ctx.choose(len(w.want), "signal")]
    h = w.table[sig]
    w.in_signal = True
    if not callable(h):
        ctx.check(False, "the signal is caught")
    h(sig, None)
    w.in_signal = False
    ctx.check(not w.stops and not lp.stopped and not lp.closed, "a signal handler only wakes the loop")
    ctx.check(bool(w.soon), "a signal begins the shutdown")
    while w.soon:
        f, a = w.soon.pop(0)
        f(*a)
    if len(w.tasks) != 1:
        raise core.Unsupported("%d tasks" % len(w.tasks))
    t = w.tasks[0]
    ctx.check(not lp.stopped, "the loop goes on while the services are stopped")
    fired = []

    def handler(q):
        # the time may be over at each await
        if not fired and any(not x.off for x in w.timers) and ctx.choose(2, "time is over"):
            for x in w.timers:
                if not x.off:
                    ctx.check(bool(x.delay == w.timeout), "the shutdown may take shutdown_timeout", x.delay)
                    fired.append(x)
                    x.f(*x.args)
            ctx.check(t.req, "a shutdown which takes too long is cancelled")
            return Exc(asyncio.CancelledError())
        return Ret(None)
    ctx.check(any(not x.off for x in w.timers), "the time of the shutdown is limited")
    t.state = drive(t.coro, handler)
    ctx.check(len(w.stops) == 1 or fired, "the services are stopped once")
    for r in w.stops:
        ctx.check(isinstance(r, RuntimeError), "the services are stopped with a RuntimeError", r)
    ctx.check(not lp.stopped, "the loop is stopped when the shutdown is over")
    code = None
    for cb in t.cbs:
        try:
            cb(t)
        except SystemExit as e:
            code = e.code
    ctx.check(lp.stopped >= 1, "the loop is stopped when the shutdown is over")
    if t.cancelled():
        ctx.check(code == 70, "a shutdown which takes too long ends the process with code 70", code)
        ctx.cover("too long")
    else:
        ctx.check(code is None, "a shutdown in time does not end the process", code)
        ctx.cover("in time")
    ctx.check(w.table == w.former, "the former handlers of the signals are restored")
    ctx.check(w.ctxs[0].closed >= 1, "the context is closed")
    w.over = True


def closing(ctx):
    """closing() returns when the shutdown begins"""
    w = world(ctx)
    ctx.assume(w.main)
    ep = make_ep(w)
    ctx.assume(w.sigs == "none" and not w.log_config and not w.given)
    lp = w.running_loop
    lp.running = True
    w.loop = lambda: lp
    events = []

    def waits():
        """run closing() up to its first await -> the event, or done"""
        c = ep.closing()
        try:
            q = c.send(None)
        except StopIteration:
            return None
        if not isinstance(q, Suspend) or q.kind != "event":
            raise core.Unsupported("closing awaits something else")
        events.append((c, q.args[0]))
        return q.args[0]
    if ctx.choose(2, "before entering"):
        e = waits()
        ctx.check(e is not None and not e.flag, "closing waits")
    status, got = drive(ep.__aenter__(), w.handler)
    ctx.assume(status == "ret")
    for _ in range(ctx.choose(3, "waiters")):
        e = waits()
        ctx.check(e is not None and not e.flag, "closing waits")
    seen = []

    def handler(q):
        for c, e in events:
            ctx.check(e.flag, "closing returns when the shutdown begins")
        if not seen:
            seen.append(1)
            e = waits()
            ctx.check(e is None or e.flag, "closing returns at once during the shutdown")
        return Ret(None)
    drive(ep.__aexit__(None, None, None), handler)
    e = waits()
    ctx.check(e is None or e.flag, "closing returns at once after the shutdown")
    for c, e in events:
        try:
            c.send(True)
            ctx.check(False, "closing returns")
        except StopIteration:
            pass
        c.close()
    ctx.cover("closing")
    w.over = True


def running(ctx):
    """run(coro, *services, **kw)"""
    mod = load("aiomisc.entrypoint", transform=ctx.sym)
    need(mod, "run", "entrypoint", "Entrypoint")
    log, made = [], []
    coro = Thing("coroutine")
    res = Thing("result")
    err = ctx.pick((None, Failed("body"), KeyboardInterrupt()), "outcome")
    enter_fails = ctx.choose(2, "start fails")

    class L:
        def run_until_complete(self, c):
            log.append(("run", c))
            if err is not None:
                raise err
            return res

        def __getattr__(self, n):
            raise core.Unsupported("loop." + n)
    boom = Failed("start")

    class EP:
        def __init__(self, *a, **kw):
            made.append((a, kw))

        def __enter__(self):
            log.append("enter")
            if enter_fails:
                raise boom
            return L()

        def __exit__(self, t, v, tb):
            log.append(("exit", v))
    mod.entrypoint = mod.Entrypoint = EP
    s = [Thing("s1"), Thing("s2")][:ctx.choose(3, "services")]
    kw = {"pool_size": 7} if ctx.choose(2, "options") else {}
    try:
        got, e = mod.run(coro, *s, **kw), None
    except (Failed, KeyboardInterrupt) as x:
        got, e = None, x
    ctx.check(made == [(tuple(s), kw)], "one entrypoint with the services and options", made)
    if enter_fails:
        ctx.check(e is boom and log == ["enter"], "a failing start is raised")
        return
    ctx.check(log == ["enter", ("run", coro), ("exit", err)], "the coroutine is run between entering and leaving", log)
    ctx.check(got is res if err is None else e is err, "the result or exception of the coroutine is given", (got, e))
    ctx.cover("run")


ENV = {
    "AIOMISC_LOG_LEVEL": ("log_level", (("debug", "debug"), ("error", "error"))),
    "AIOMISC_LOG_FORMAT": ("log_format", (("json", "json"), ("plain", "plain"))),
    "AIOMISC_LOG_DATE_FORMAT": ("log_date_format", (("%Y", "%Y"), (None, None))),
    "AIOMISC_LOG_CONFIG": ("log_config", (("0", False), ("1", True), ("no", False), ("Yes", True), ("ON", True),
                                          ("true", True), ("false", False), ("enable", True), ("enabled", True),
                                          ("disabled", False), ("", False), (None, True))),
    "AIOMISC_LOG_FLUSH": ("log_flush_interval", (("0.5", 0.5), ("3", 3.0), (None, 0.2))),
    "AIOMISC_LOG_BUFFERING": ("log_buffering", (("0", False), ("on", True), (None, True))),
    "AIOMISC_LOG_BUFFER": ("log_buffer_size", (("0", 0), ("17", 17), (None, 1024))),
    "AIOMISC_POOL_SIZE": ("pool_size", (("3", 3), (None, None))),
    "AIOMISC_SHUTDOWN_TIMEOUT": ("shutdown_timeout", (("1.5", 1.5), ("0", 0.0), (None, 60.0))),
    "AIOMISC_DEBUG": ("_debug", (("1", True), ("TRUE", True), ("0", False), ("off", False), (None, False))),
}


def defaults(ctx):
    """the defaults are those of the environment"""
    name = ctx.pick(tuple(sorted(ENV)), "variable")
    attr, vals = ENV[name]
    val, want = vals[ctx.choose(len(vals), "value")]
    saved = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith("AIOMISC_") and k != "AIOMISC_NO_PLUGINS"}
    try:
        if val is not None:
            os.environ[name] = val
        mod = load("aiomisc.entrypoint", transform=ctx.sym, fresh=True)
        os.environ.pop(name, None)
        load("aiomisc.entrypoint", transform=ctx.sym, fresh=True)
    finally:
        os.environ.pop(name, None)
        os.environ.update(saved)
    need(mod.Entrypoint(log_config=False, catch_signals=()), *[a for a, _ in ENV.values()])

    class Log:
        @staticmethod
        def basic_config(**kw):
            pass
    mod.aiomisc_log = Log
    ep = mod.Entrypoint(catch_signals=())
    got = getattr(ep, attr)
    ctx.check(type(got) is type(want) and got == want, "%s gives the default of %s" % (name, attr.strip("_")), (val, got))
    if val is not None:
        other = Thing("given")
        arg = attr.strip("_")
        if arg == "shutdown_timeout":
            other = 7.25
        ep = mod.Entrypoint(catch_signals=(), **{arg: other})
        ctx.check(getattr(ep, attr) is other or getattr(ep, attr) == other, "an argument overrides the default")
    ctx.cover(name)


HARNESSES = [("making", guard(making)), ("life", guard(life)), ("interrupt", guard(interrupt)), ("closing", guard(closing)),
             ("run", guard(running)), ("defaults", guard(defaults))]


# ------------------------------------------------------------- executions

class Keep:
    """leaves logging, hooks, signals and the loop of the thread as they were"""

    def __enter__(self):
        root = logging.getLogger()
        self.a = (list(root.handlers), root.level, sys.excepthook, asyncio.get_event_loop_policy(),
                  {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2)},
                  logging.root.manager.disable)
        logging.disable(logging.NOTSET)

    def __exit__(self, *a):
        root = logging.getLogger()
        hs, lv, sys.excepthook, pol, sigs, dis = self.a
        root.handlers[:] = hs
        root.setLevel(lv)
        # (its handlers keep their threads)
        for r in list(logging._handlerList):
            h = r()
            if type(h).__name__ == "ThreadedHandler":
                h.close()
        logging.disable(dis)
        asyncio.set_event_loop_policy(pol)
        for s, h in sigs.items():
            signal.signal(s, h)
        asyncio.set_event_loop(None)


def fuzz_signals(rng):
    """real signals to a real entrypoint"""
    import importlib
    epm = importlib.import_module("aiomisc.entrypoint")
    svm = importlib.import_module("aiomisc.service.base")
    tpm = importlib.import_module("aiomisc.thread_pool")
    utm = importlib.import_module("aiomisc.utils")
    log, pools = [], []
    real = utm.ThreadPoolExecutor

    class Pool(real):
        def __init__(self, size, **kw):
            super().__init__(size, **kw)
            pools.append(self)
            self.c33_size = size
    utm.ThreadPoolExecutor = Pool
    try:
        signals(rng, epm, svm, tpm, log, pools)
    finally:
        utm.ThreadPoolExecutor = real


def signals(rng, epm, svm, tpm, log, pools):
    slow = rng.random() < 0.35
    own = rng.random() < 0.6
    sig = rng.choice((signal.SIGUSR1, signal.SIGUSR2))
    extra = rng.random() < 0.3
    fail = not slow and rng.random() < 0.3

    class H(logging.Handler):
        def emit(self, rec):
            log.append(rec.getMessage())
    h = H()
    lg = logging.getLogger("c33")

    class Svc(svm.Service):
        async def start(self):
            lg.info("mark start %d", self.n)

        async def stop(self, e=None):
            got.append((self.n, e, loop.is_closed(), signal.getsignal(sig) is mine))
            lg.info("mark stop %d", self.n)
            await asyncio.sleep(30 if slow and self.n == 0 else rng.random() * 0.01)
            if fail and self.n == 0:
                raise Failed("stop")
            done.append(self.n)
    got, done, closed = [], [], []

    def mine(*a):
        raise AssertionError("the former handler was called")
    with Keep():
        signal.signal(sig, mine)
        given = None if own else asyncio.new_event_loop()
        n = rng.randint(1, 3)
        pool = rng.randint(1, 3)
        config = rng.random() < 0.5
        ep = epm.Entrypoint(*[Svc(n=i) for i in range(n)], loop=given, catch_signals=(sig,), pool_size=pool,
                            log_config=config, log_handlers=[h], log_level="debug", log_format="disabled",
                            log_flush_interval=0.001, shutdown_timeout=0.05 if slow else 20)
        code = raised = None
        t0 = time.monotonic()
        try:
            with ep as loop:
                assert (loop is given) if given else not loop.is_closed(), "loop"
                assert epm.Entrypoint.get_current() is ep, "current entrypoint"
                if own:
                    assert len(pools) == 1 and pools[0].c33_size == pool, "pools %r" % pools
                    ex = pools[0]
                    w = loop.run_until_complete(asyncio.wait_for(loop.run_in_executor(None, threading.current_thread), 10))
                    assert isinstance(w, threading.Thread) and w is not threading.current_thread(), w
                else:
                    assert not pools, "a pool for a given loop"

                async def waiter():
                    await ep.closing()
                    closed.append(time.monotonic())
                if not own:
                    # the tasks of a loop of its own are cancelled
                    wt = loop.create_task(waiter())
                loop.call_later(rng.random() * 0.01, os.kill, os.getpid(), sig)
                loop.call_later(25, loop.stop)
                loop.run_forever()
                assert time.monotonic() - t0 < 20, "the signal did not stop the loop"
                assert not slow, "a slow shutdown was not aborted"
        except SystemExit as e:
            code = e.code
        except Failed as e:
            raised = e
        assert raised is None, "a failing stop of the shutdown by a signal is raised twice"
        assert code == (70 if slow else None), "exit code %r" % code
        assert time.monotonic() - t0 < 15, "shutdown took too long"
        assert sorted(x[0] for x in got) == list(range(n)), "stops %r" % got
        for i, e, cl, former in got:
            assert isinstance(e, RuntimeError), "reason %r" % (e,)
            assert not cl and former, "loop closed or handler kept"
        if not slow:
            assert sorted(done) == [i for i in range(n) if not (fail and i == 0)], "stopped %r" % done
        assert signal.getsignal(sig) is mine, "the former handler was not restored"
        assert loop.is_closed() == own, "loop %s" % ("left open" if own else "closed")
        if given:
            assert wt.done() and closed, "closing did not return"
            given.close()
        if own:
            try:
                ex.submit(print)
                raise AssertionError("the pool was not shut down")
            except (tpm.ThreadPoolException, RuntimeError):
                pass
        if config:
            for _ in range(1000):
                if sum(x.startswith("mark") for x in log) >= 2 * n:
                    break
                time.sleep(0.005)
            for i in range(n):
                assert log.count("mark start %d" % i) == 1 and log.count("mark stop %d" % i) == 1, "records %r" % log
        else:
            assert not log, "logging was configured"
        del ep
        gc.collect()


def fuzz_life(rng):
    """real entrypoints with failing services, own and given loops"""
    import importlib
    epm = importlib.import_module("aiomisc.entrypoint")
    svm = importlib.import_module("aiomisc.service.base")
    mode = rng.choice(("with", "async", "run", "nested"))
    bad = rng.choice((None, None, "start", "stop", "body"))
    stops = []

    class Svc(svm.Service):
        async def start(self):
            if bad == "start":
                raise Failed("start")

        async def stop(self, e=None):
            stops.append(e)
            if bad == "stop":
                raise Failed("stop")
    with Keep():
        me = {s: (lambda *a: None) for s in (signal.SIGINT, signal.SIGTERM)}
        for s, f in me.items():
            signal.signal(s, f)
        dbg = rng.random() < 0.5
        opts = {"log_config": False, "debug": dbg, "pool_size": rng.randint(1, 4)}

        def inside():
            for s, f in me.items():
                assert signal.getsignal(s) is not f, "signal %s is not caught" % s

        async def body():
            lp = asyncio.get_running_loop()
            loops.append(lp)
            inside()
            if mode != "async":
                assert lp.get_debug() == dbg, "debug"
            if mode == "nested":
                try:
                    with epm.Entrypoint(log_config=False, catch_signals=()):
                        pass
                except RuntimeError:
                    pass
                else:
                    raise AssertionError("an entrypoint with a second loop beside a running one")
            if bad == "body":
                raise Failed("body")
            return 77
        loops = []
        threads = set(threading.enumerate())
        err = res = None
        try:
            if mode == "run":
                res = epm.run(body(), Svc(), **opts)
            elif mode in ("with", "nested"):
                with epm.Entrypoint(Svc(), **opts) as lp:
                    res = lp.run_until_complete(body())
            else:
                async def main():
                    async with epm.Entrypoint(Svc(), log_config=False) as ep:
                        assert ep.loop is asyncio.get_running_loop(), "another loop"
                        return await body()
                lp = asyncio.new_event_loop()
                try:
                    res = lp.run_until_complete(main())
                finally:
                    assert not lp.is_closed(), "the given loop was closed"
                    lp.close()
        except Failed as e:
            err = e
        assert (err.args[0] if err else None) == bad, "raised %r" % (err,)
        if bad != "stop":
            assert res == (None if bad else 77), "result %r" % (res,)
        if mode != "async" and bad == "start":
            # (closing a loop shuts its pool down without waiting)
            for _ in range(400):
                if all(not t.name.endswith("default") or t in threads for t in threading.enumerate()):
                    break
                time.sleep(0.005)
            else:
                raise AssertionError("threads are left: %r" % threading.enumerate())
        if bad != "start":
            assert len(stops) == 1 and (stops[0] is err if bad == "body" else stops[0] is None), "stops %r" % stops
            assert loops[0].is_closed(), "the loop was left open"
        for s, f in me.items():
            assert signal.getsignal(s) is f, "signal %s was not restored" % s


FUZZ_S = 5
REAL = ("signals",)
FUZZ = [("signals", fuzz_signals), ("life", fuzz_life)]
