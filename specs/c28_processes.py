"""C28: aiomisc.service.process and aiomisc.process_pool."""
import asyncio
import concurrent.futures
import logging
import multiprocessing
import os
import signal
import tempfile
import time

from pyvc import core
from pyvc.aio import NS, Exc, Ret, Sink, Suspend, close_coro, drive
from pyvc.load import load, need

from .c26_servers import Thing, guard

ASSUME = ["multiprocessing.Process runs its target once in a new process; Event is shared between processes; kill() ends "
          "a process; is_alive() tells whether it runs",
          "a started process begins to run its target or ends",
          "PeriodicCallback keeps its contract (C20), basic_config configures the logging as it is told",
          "nobody else reaps or signals the processes of a service",
          "concurrent.futures.ProcessPoolExecutor.submit runs each call once and completes its future once"]
BOUNDED = {}
CONTRACTS = ["_process_inner (as target of the process)", "ProcessService.start/stop/_is_alive",
             "ProcessService.stop while start waits (any progress of the process)",
             "RespawningProcessService.start/stop and one round of its supervisor from any state",
             "ProcessPoolExecutor.submit/_statistic_callback (from any statistic)"]

CLASSES = ("ProcessService", "RespawningProcessService")


class World:
    """one service and its processes"""


def world(ctx, which, options=False):
    w = World()
    mod = load("aiomisc.service.process", transform=ctx.sym)
    need(mod, *(CLASSES + ("Process", "Event", "os", "signal", "basic_config", "PeriodicCallback", "Lock", "LOG_LEVEL",
                           "LOG_FORMAT", "log")))
    w.mod, w.procs, w.script, w.dry, w.locks = mod, [], None, False, []
    w.waited = 0
    w.timeout = ctx.real("timeout", 0)
    w.nothing = 0               # rounds without any progress
    w.during = None             # what else happens while a thread waits
    w.periodics = []
    w.stopping = False
    w.cancelled = False
    w.config = []
    w.handlers = {}
    parent = object()

    class Lock:
        def __init__(self):
            self.held = False

        def acquire(self, *a, **k):
            ctx.check(not self.held, "the event loop is never blocked")
            if self.held:
                ctx.stop()
            self.held = True
            return True

        def release(self):
            self.held = False

        def locked(self):
            return self.held

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class Event:
        def __init__(self, *a, **k):
            self.flag = False

        def set(self):
            if w.dry:
                w.script.append(self)
            else:
                self.flag = True

        def clear(self):
            if w.dry:
                raise core.Unsupported("an event is cleared in the process")
            self.flag = False

        def is_set(self):
            return self.flag

        def wait(self, timeout=None):
            for late in (0, 1):
                if w.during is not None and ctx.choose(2, "meanwhile"):
                    f, w.during = w.during, None
                    f()
                if not self.flag and not late:
                    for p in w.procs:
                        if p.state in ("alive", "exiting"):
                            p.progress(timeout is None)
            if not self.flag:
                if timeout is None:
                    ctx.check(False, "no wait lasts for ever")
                    ctx.stop()
                w.waited = w.waited + timeout
            return self.flag

    class Proc:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
            self.name, self.daemon = name, daemon
            self.state, self.pid, self.interrupted, self.killed = "new", None, False, False
            self.reaction = None
            self.ending = None
            self.begun = False

        def start(self):
            ctx.check(self.state == "new", "a process is started once")
            ctx.check(not any(p.state in ("alive", "stuck") for p in w.procs), "a service has one process at a time")
            ctx.check(not w.stopping, "no process is started when the service has stopped")
            self.pid = 1000 + len(w.procs)
            self.state = "alive"
            w.procs.append(self)
            # what the process will do
            w.dry, w.script = True, []
            w.handlers = {signal.SIGINT: parent, signal.SIGTERM: parent}
            how = ctx.choose(2, "raises")
            w.raises = bool(how)
            n = len(w.config)
            try:
                self.target(*self.args, **self.kwargs)
            except Boom:
                pass
            finally:
                w.dry = False
            del w.config[n:]
            at = [i for i, x in enumerate(w.script) if x == "in"]
            ctx.check(len(at) == 1, "in_process is called once in the process", len(at))
            if len(at) != 1:
                ctx.stop()
            self.first = [e for e in w.script[:at[0]] if e != "config"]
            self.last = [e for e in w.script[at[0]:] if e not in ("config", "in")]

        def progress(self, must):
            if not self.begun:
                k = ctx.pick(("begin", "die", "nothing") if w.nothing < 2 and not must else ("begin", "die"), "progress")
                if k == "nothing":
                    w.nothing += 1
                elif k == "die":
                    self.state = "dead"
                elif self.interrupted and ctx.choose(2, "interrupted early"):
                    self.state = "dead"
                else:
                    self.begun = True
                    for e in self.first:
                        e.flag = True
                return
            if self.state == "exiting":
                return
            if self.interrupted:
                if self.reaction is None:
                    self.reaction = ctx.pick(("finish", "stuck", "die", "deaf"), "reaction")
                    if self.reaction in ("finish", "stuck"):
                        for e in self.last:
                            e.flag = True
                        self.state = "exiting" if self.reaction == "finish" else "stuck"
                    elif self.reaction == "die":
                        self.state = "dead"

        def end(self):
            """it ends by itself"""
            if ctx.choose(2, "regularly"):
                for e in self.first + self.last:
                    e.flag = True
            self.state = "dead"

        def is_alive(self):
            return self.state in ("alive", "exiting", "stuck")

        def join(self, timeout=None):
            if self.state == "alive":
                self.progress(timeout is None)
            if self.state == "exiting":
                self.state = "dead"
            if self.state in ("alive", "stuck"):
                if timeout is None:
                    ctx.check(False, "no wait lasts for ever")
                    ctx.stop()
                w.waited = w.waited + timeout

        def kill(self):
            ctx.check(self.state != "exiting" or w.cancelled, "a process which ends in time is not killed")
            if self.state in ("alive", "stuck") and not w.cancelled:
                ctx.check(w.waited >= w.timeout, "a process is not killed before process_stop_timeout", w.waited)
                ctx.check(self.interrupted, "a process is interrupted before it is killed")
            self.killed = True
            self.state = "dead"
        terminate = kill

        @property
        def exitcode(self):
            return None if self.state != "dead" else 0

        @property
        def sentinel(self):
            raise core.Unsupported("sentinel")

        def __repr__(self):
            return "<process %s %s>" % (self.pid, self.state)

    def kill(pid, sig):
        ps = [p for p in w.procs if p.pid == pid]
        ctx.check(len(ps) == 1 and ps[0].is_alive(), "signals are sent to processes of the service only", (pid, sig))
        if not ps:
            return
        if sig == signal.SIGKILL:
            ps[0].kill()
        elif sig == signal.SIGINT:
            ps[0].interrupted = True
        else:
            raise core.Unsupported("signal %r" % sig)

    class Periodic:
        def __init__(self, f, *a, **k):
            self.f, self.started, self.stopped = (lambda: f(*a, **k)), None, False
            w.periodics.append(self)

        def start(self, interval, *a, **k):
            ctx.check(self.started is None, "one supervisor")
            ctx.check(any(p.state != "new" for p in w.procs), "the process is supervised when it was started")
            self.started, self.stopped = interval, False

        def stop(self, return_exceptions=False):
            self.stopped = True
            if self.started is None and not return_exceptions:
                raise core.Unsupported("stop of a callback which was not started")

            async def wait():
                await Suspend("supervisor")
            return wait()

    def setsignal(sig, h):
        if not w.dry:
            raise core.Unsupported("signal.signal")
        old = w.handlers.get(sig)
        w.handlers[sig] = h
        return old
    w.parent = parent

    def basic_config(*a, **k):
        w.config.append((a, k))
        if w.dry:
            w.script.append("config")
            w.configured = (a, k)

    class Loop:
        async def run_in_executor(self, ex, f, *a):
            return await Suspend("executor", f, a)

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    w.loop = Loop()
    w.level, w.format = Thing("level"), Thing("format")

    class Var:
        def __init__(self, v):
            self.v = v

        def get(self, *a):
            return self.v
    mod.Process, mod.Event, mod.Lock = Proc, Event, Lock
    mod.os = NS(os, kill=kill, getpid=os.getpid)
    mod.signal = NS(signal, signal=setsignal, getsignal=lambda s: w.handlers.get(s),
                    default_int_handler=signal.default_int_handler)
    mod.basic_config, mod.PeriodicCallback = basic_config, Periodic
    mod.LOG_LEVEL, mod.LOG_FORMAT = Var(w.level), Var(w.format)
    mod.log = Sink()
    w.kwargs = {"a": Thing("a"), "b": Thing("b")} if not options or ctx.choose(2, "kwargs") else {}
    w.raises = False

    def in_process(self, **kw):
        if not w.dry:
            ctx.check(False, "in_process is called in the process")
        conf = "config" in w.script
        ctx.check(conf, "the logging of the process is configured first")
        if conf:
            a, k = w.configured
            got = dict(zip(("level", "log_format"), a), **k)
            ctx.check(got.get("level") is w.level and got.get("log_format") is w.format,
                      "the process logs with the level and format of its parent", got)
        ctx.check(sorted(kw) == sorted(w.kwargs) and all(kw[n] is w.kwargs[n] for n in w.kwargs),
                  "in_process gets the process kwargs", kw)
        ctx.check(w.handlers[signal.SIGINT] is not parent, "a process does not keep the signal handlers of its parent")
        w.script.append("in")
        if w.raises:
            raise Boom()
    dct = {"in_process": in_process, "__module__": __name__}
    if w.kwargs:
        dct["get_process_kwargs"] = lambda self: w.kwargs
    w.cls = type("S", (getattr(mod, which),), dct)
    w.name = ctx.pick((None, "worker"), "name") if options else "worker"
    kw = {"name": w.name} if w.name else {}
    w.poll = ctx.real("poll", 0)
    if which == CLASSES[1]:
        kw["process_poll_timeout"] = w.poll
    w.s = w.cls(process_stop_timeout=w.timeout, **kw)
    w.s.set_loop(w.loop)
    return w


class Boom(Exception):
    pass


def executor(ctx, w, what="cancelled"):
    """awaits: everything in the executor is run, or the caller cancelled"""
    def handler(q):
        if q.kind == "supervisor":
            return Ret(None)
        if q.kind != "executor":
            raise core.Unsupported("await on %r" % q)
        f, a = q.args
        if what and not ctx.choose(3, what):
            w.cancelled = True
            if ctx.choose(2, "the thread goes on"):
                run(ctx, f, a)
            return Exc(asyncio.CancelledError())
        return run(ctx, f, a)
    return handler


def run(ctx, f, a):
    try:
        return Ret(f(*a))
    except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
        raise
    except Exception as e:
        return Exc(e)


def no_process(ctx, w):
    ctx.check(not any(p.state in ("alive", "stuck") for p in w.procs), "a stopped service leaves no process", w.procs)


def do_stop(ctx, w, what=None):
    """stop() -> (outcome, value)"""
    w.waited = 0
    n = len(w.procs)
    sup = [p for p in w.periodics]

    def handler(q):
        if q.kind == "supervisor":
            w.supervised = True
            return Ret(None)
        return inner(q)
    inner = executor(ctx, w, what)
    st, v = drive(w.s.stop(None), handler)
    if st == "exc" and not isinstance(v, asyncio.CancelledError):
        ctx.check(False, "stop does not fail", repr(v))
    ctx.check(len(w.procs) == n, "stop starts no process")
    no_process(ctx, w)
    for p in sup:
        if p.started is not None:
            ctx.check(p.stopped, "the supervisor is stopped")
    ctx.check(w.cancelled or w.waited <= 3 * w.timeout, "stop takes not much longer than process_stop_timeout", w.waited)
    w.stopping = True
    return st, v


def start(ctx):
    """start makes one process and returns when it has begun or ended"""
    which = ctx.pick(CLASSES, "class")
    w = world(ctx, which, True)
    st, v = drive(w.s.start(), executor(ctx, w))
    ctx.check(len(w.procs) == 1, "one process is started", w.procs)
    if len(w.procs) != 1:
        return
    p = w.procs[0]
    ctx.check(p.name is w.name or p.name == w.name, "the process has the name of the service", p.name)
    if w.cancelled:
        ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancelled start is cancelled", (st, v))
        ctx.cover("cancelled")
    else:
        ctx.check(st == "ret", "start succeeds", v)
        ctx.check(p.begun or p.state == "dead", "start returns when the process has begun")
        if which == CLASSES[1]:
            sup = [x for x in w.periodics if x.started is not None]
            ctx.check(len(sup) == 1 and sup[0].started == w.poll, "the process is polled each process_poll_timeout")
        else:
            ctx.check(not w.periodics, "a process service is not respawned")
        ctx.cover("started")
    if ctx.choose(2, "stop"):
        w.cancelled = False
        do_stop(ctx, w)
        ctx.cover("stopped")


def stop(ctx):
    """stop interrupts the process, waits, kills it"""
    which = ctx.pick(CLASSES, "class")
    w = world(ctx, which)
    st, v = drive(w.s.start(), executor(ctx, w, None))
    ctx.check(st == "ret", "start succeeds", v)
    if not w.procs:
        return
    p = w.procs[0]
    if p.state == "alive" and not ctx.choose(3, "ends before"):
        p.end()
    alive = p.state == "alive"
    st, v = do_stop(ctx, w, "cancelled")
    if alive:
        ctx.check(p.interrupted, "the process is interrupted")
        if p.reaction in ("finish", "die") and not w.cancelled:
            ctx.check(not p.killed, "a process which ends in time is not killed")
        ctx.cover("stopped " + str(p.reaction) if not w.cancelled else "cancelled")
    else:
        ctx.check(not p.interrupted and not p.killed, "nothing is done to a process which has ended")
        ctx.cover("has ended")
    if not w.cancelled:
        ctx.check(st == "ret", "stop succeeds", v)
        # a second stop does nothing
        if ctx.choose(2, "again"):
            do_stop(ctx, w)
            ctx.cover("again")


def stop_while_starting(ctx):
    """the service is stopped while start waits for the process"""
    which = ctx.pick(CLASSES, "class")
    w = world(ctx, which)
    done = []

    def meanwhile():
        done.append(do_stop(ctx, w))
    w.during = meanwhile
    st, v = drive(w.s.start(), executor(ctx, w, None))
    if not done:
        ctx.stop()
    ctx.check(len(w.procs) == 1, "one process is started", w.procs)
    no_process(ctx, w)
    # a supervisor that goes on does nothing
    for x in w.periodics:
        if x.started is not None and not x.stopped:
            supervise(ctx, w, x)
            no_process(ctx, w)
    ctx.cover("stopped while starting")


def supervise(ctx, w, x, what=None):
    c = x.f()
    return drive(c, executor(ctx, w, what))


def respawn(ctx):
    """a round of the supervisor starts a process if, and only if, the last
    one has ended"""
    w = world(ctx, CLASSES[1])
    st, v = drive(w.s.start(), executor(ctx, w, None))
    ctx.check(st == "ret", "start succeeds", v)
    sup = [x for x in w.periodics if x.started is not None]
    if len(sup) != 1 or len(w.procs) != 1:
        ctx.check(False, "one process, one supervisor")
        return
    p = w.procs[0]
    if p.state == "alive" and ctx.choose(2, "has ended"):
        p.end()
    ended = p.state == "dead"
    st, v = supervise(ctx, w, sup[0], "cancelled")
    if w.cancelled:
        ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancelled supervisor is cancelled", (st, v))
        ctx.check(len(w.procs) <= 1 + ended, "at most one process is started", w.procs)
        ctx.cover("cancelled")
    else:
        ctx.check(st == "ret", "the supervisor does not fail", v)
        ctx.check(len(w.procs) == 1 + ended, "a process is started if the last one has ended",
                  (w.procs, ended))
        if len(w.procs) > 1:
            q = w.procs[1]
            ctx.check(q.begun or q.state == "dead", "the supervisor waits for the new process")
            ctx.check(q.name is w.name or q.name == w.name, "the process has the name of the service", q.name)
            ctx.cover("respawned")
        else:
            ctx.cover("alive")
    ctx.check(not p.interrupted, "a running process is left alone")
    w.cancelled = False
    do_stop(ctx, w)         # it knows the process it has
    ctx.cover("stopped after")


# ---------------------------------------------------------- process pool

class Falsy(Exception):
    def __bool__(self):
        return False


def pool(ctx):
    """the statistic counts each call once, by its outcome"""
    mod = load("aiomisc.process_pool", transform=ctx.sym)
    need(mod, "ProcessPoolExecutor", "asyncio")
    now = [ctx.real("now", 0)]
    calls = []

    class Loop:
        def time(self):
            return now[0]

        def __getattr__(self, name):
            raise core.Unsupported("loop.%s" % name)
    loop = Loop()
    mod.asyncio = NS(asyncio, get_running_loop=lambda: loop, get_event_loop=lambda: loop)

    class Future:
        def __init__(self):
            self.cbs, self.state, self.value = [], None, None

        def done(self):
            return self.state is not None

        def cancelled(self):
            return self.state == "cancelled"

        def exception(self, timeout=None):
            if self.state is None:
                raise core.Unsupported("waits for the call")
            if self.state == "cancelled":
                raise concurrent.futures.CancelledError()
            return self.value if self.state == "exc" else None

        def result(self, timeout=None):
            if self.state == "exc":
                raise self.value
            self.exception()
            return self.value

        def add_done_callback(self, f):
            if self.state is not None:
                f(self)
            else:
                self.cbs.append(f)
    fut = Future()

    class Stat:
        pass
    names = ("processes", "done", "error", "success", "submitted", "sum_time")
    before = {n: ctx.int(n, 0) for n in names[:-1]}
    before["sum_time"] = ctx.real("sum_time", 0)
    stat = Stat()
    for n in names:
        setattr(stat, n, before[n])
    cls = mod.ProcessPoolExecutor
    base = concurrent.futures.ProcessPoolExecutor
    obj = object.__new__(cls)
    obj._statistic = stat
    # (so that __del__ finds what it needs)
    f, a, k = Thing("f"), (Thing("x"),), {"y": Thing("y")}
    fails = not ctx.choose(4, "rejected")
    early = bool(ctx.choose(2, "completes at once"))

    def finish(d):
        now[0] = now[0] + d
        fut.state = ctx.pick(("ret", "exc", "falsy", "cancelled"), "outcome")
        fut.how = fut.state
        if fut.state == "falsy":
            fut.state, fut.value = "exc", Falsy()
        elif fut.state == "exc":
            fut.value = ctx.pick((KeyError("x"), SystemExit(1)), "error")
        else:
            fut.value = ctx.pick((None, 0, "x"), "value")
        for cb in list(fut.cbs):
            cb(fut)

    d0 = ctx.real("during submit", 0)

    def submit(self, *args, **kwargs):
        ctx.check(self is obj and len(args) == 2 and args[0] is f and args[1] is a[0] and list(kwargs) == ["y"] and
                  kwargs["y"] is k["y"], "the call is submitted as it is", (args, kwargs))
        calls.append(1)
        if fails:
            raise RuntimeError("shut down")
        if early:
            finish(d0)
        return fut
    saved = {}
    for n, v in (("submit", submit), ("shutdown", lambda self, *a, **k: None)):
        saved[n] = base.__dict__[n]
        setattr(base, n, v)
    try:
        begin = now[0]
        try:
            r, err = obj.submit(f, *a, **k), None
        except RuntimeError as e:
            r, err = None, e
        ctx.check(len(calls) == 1, "the call is submitted once", len(calls))
        if fails:
            ctx.check(err is not None, "a rejected call fails")
            for n in names:
                ctx.check(getattr(stat, n) == before[n], "a rejected call is not counted", n)
            ctx.cover("rejected")
            return
        ctx.check(r is fut, "the future of the call is given", r)
        ctx.check(stat.submitted == before["submitted"] + 1, "each call is counted when it is submitted")
        if not early:
            for n in ("done", "error", "success", "sum_time"):
                ctx.check(getattr(stat, n) == before[n], "a call is counted when it is done", n)
            finish(ctx.real("duration", 0))
        good = fut.how == "ret"
        ctx.check(stat.submitted == before["submitted"] + 1, "each call is counted once")
        ctx.check(stat.done == before["done"] + 1, "each call is counted when it is done")
        ctx.check(stat.success == before["success"] + good, "calls which return are successes", fut.how)
        ctx.check(stat.error == before["error"] + (not good), "calls which fail or are cancelled are errors", fut.how)
        ctx.check(stat.sum_time == before["sum_time"] + (now[0] - begin), "the time of the calls is summed up")
        ctx.check(stat.processes == before["processes"], "the number of processes")
        ctx.cover(fut.how)
    finally:
        for n, v in saved.items():
            setattr(base, n, v)
        obj.shutdown = lambda *a, **k: None


HARNESSES = [(h.__name__, guard(h)) for h in (start, stop, stop_while_starting, respawn, pool)]


# ------------------------------------------------------------- executions

def child(path, plan):
    """what a process of the fuzzed service does"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    logging.disable(50)

    def say(what):
        fd = os.open(path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, ("%d %s\n" % (os.getpid(), what)).encode())
        os.close(fd)
    say("start")
    try:
        if plan == "deaf":
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            say("deaf")
            time.sleep(60)
        elif plan == "sleep":
            time.sleep(60)
        elif plan == "crash":
            raise KeyError("crash")
        elif plan == "exit":
            os._exit(3)
        elif plan == "brief":
            time.sleep(0.1)
        say("end")
    except KeyboardInterrupt:
        say("interrupted")


def log_of(path):
    with open(path) as f:
        return [(int(x.split()[0]), x.split()[1]) for x in f.read().splitlines()]


def fuzz_service(rng):
    """real processes of a service which is started, respawned, stopped"""
    import threading
    import aiomisc
    import aiomisc.service.process as mod
    respawn = rng.random() < 0.6
    base = mod.RespawningProcessService if respawn else mod.ProcessService
    made = []
    faults = []
    over = [False]

    class Process(mod.Process):
        def start(self):
            if any(p.is_alive() for p in made):
                faults.append("two processes at once")
            if over[0]:
                faults.append("a process was started after the stop")
            super().start()
            made.append(self)
    plans = [rng.choice(("sleep", "sleep", "deaf", "crash", "exit", "brief", "quick")) for _ in range(3)] + ["sleep"]
    fd, path = tempfile.mkstemp()
    os.close(fd)
    how = rng.choice(("run", "run", "early", "cancel", "again", "restart"))
    # (a process which is interrupted before it runs is waited for that long)
    limit = 20 if plans[0] == "sleep" and how in ("run", "again") else 0.1

    class S(base):
        n = 0
        process_stop_timeout = limit
        process_poll_timeout = 0.05
        kwargs = None

        def get_process_kwargs(self):
            S.n += 1
            return {"plan": plans[min(S.n, len(plans)) - 1]}

        def in_process(self, plan):
            child(path, plan)
    old, mod.Process = mod.Process, Process
    sigs = signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGTERM)
    s = S()
    main = threading.current_thread() is threading.main_thread()

    async def wait(cond, what, t=20):
        end = time.monotonic() + t
        while not cond():
            assert time.monotonic() < end, what
            await asyncio.sleep(0.01)

    async def body(loop):
        if main:
            # (as an entrypoint does)
            signal.signal(signal.SIGINT, lambda *a: faults.append("the signal came back"))
            signal.signal(signal.SIGTERM, lambda *a: None)
        s.set_loop(loop)
        if how in ("early", "cancel"):
            t = loop.create_task(s.start())
            for _ in range(rng.randint(1, 5)):
                await asyncio.sleep(0)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random() * 0.05)
            if how == "cancel":
                t.cancel()
                await asyncio.wait([t], timeout=20)
                assert t.done(), "a cancelled start goes on"
            if made:
                await asyncio.wait_for(s.stop(None), 20)
            await asyncio.wait([t], timeout=20)
            assert t.done(), "start goes on for ever"
            if not t.cancelled():
                t.result()
        else:
            await asyncio.wait_for(s.start(), 20)
            assert len(made) == 1 and made[0].pid
            if respawn and plans[0] not in ("sleep", "deaf"):
                k = next(i for i, p in enumerate(plans) if p in ("sleep", "deaf"))
                await wait(lambda: sum(1 for _, x in log_of(path) if x == "start") > k, "the process is not respawned")
            else:
                await wait(lambda: log_of(path), "the process does not run")
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.1)
            p = made[-1]
            plan = plans[min(len(made), len(plans)) - 1]
            if plan == "deaf":
                await wait(lambda: (p.pid, "deaf") in log_of(path), "the process does not run")
            stays = plan in ("sleep", "deaf")
            assert not stays or p.is_alive(), "a running process was ended"
            await asyncio.wait_for(s.stop(None), 60)
            if plan == "sleep" and limit > 1:
                assert log_of(path)[-1] == (p.pid, "interrupted"), "a process was not interrupted: %r" % log_of(path)[-1:]
        over[0] = True
        if how == "again":
            await asyncio.wait_for(s.stop(None), 20)
        for p in made:
            p.join(20)
            assert not p.is_alive(), "a stopped service leaves a process"
        await asyncio.sleep(rng.choice((0, 0.12)))
        if how == "restart":
            over[0] = False
            n = len(made)
            await asyncio.wait_for(s.start(), 20)
            assert len(made) > n, "no process after a second start"
            await wait(lambda: made[-1].pid in [x for x, _ in log_of(path)], "the process does not run")
            await asyncio.wait_for(s.stop(None), 60)
            for p in made:
                p.join(20)
                assert not p.is_alive(), "a stopped service leaves a process"
            over[0] = True
        starts = [x for _, x in log_of(path) if x == "start"]
        assert len(starts) <= len(made), "in_process ran %d times in %d processes" % (len(starts), len(made))
        assert respawn or len(made) == 1 + (how == "restart"), "%d processes" % len(made)

    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(body(loop))
        assert not faults, faults[0]
    finally:
        mod.Process = old
        for p in made:
            if p.is_alive():
                p.kill()
                p.join(5)
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(asyncio.sleep(0))
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
        if main:
            signal.signal(signal.SIGINT, sigs[0])
            signal.signal(signal.SIGTERM, sigs[1])
        os.unlink(path)


def square(x):
    if x < 0:
        raise ValueError(x)
    time.sleep(0.001 * (x % 3))
    return x * x


def fuzz_pool(rng):
    """a process pool: outcomes and statistics"""
    import aiomisc.process_pool as mod
    from aiomisc.counters import get_statistics
    n = rng.randint(1, 2)

    async def body():
        ex = mod.ProcessPoolExecutor(n)
        try:
            loop = asyncio.get_running_loop()
            jobs, want = [], []
            for _ in range(rng.randint(1, 12)):
                x = rng.randint(-5, 9)
                jobs.append(loop.run_in_executor(ex, square, x) if rng.random() < 0.5
                            else asyncio.wrap_future(ex.submit(square, x)))
                want.append(x)
            for j in jobs:
                if rng.random() < 0.2:
                    j.cancel()
            res = await asyncio.gather(*jobs, return_exceptions=True)
            for x, r in zip(want, res):
                if isinstance(r, asyncio.CancelledError):
                    continue
                if x < 0:
                    assert isinstance(r, ValueError) and r.args == (x,), (x, r)
                else:
                    assert r == x * x, (x, r)
            ex._statistic.name = name = "c28-%d" % rng.getrandbits(60)

            def read():
                got = {r.metric: r.value for r in get_statistics(mod.ProcessPoolStatistic) if r.name == name}
                assert sorted(got) == sorted(("processes", "done", "error", "success", "submitted", "sum_time"))
                return NS(mod, **got)
            st = read()
            end = time.monotonic() + 10
            while st.done < len(want) and time.monotonic() < end:
                await asyncio.sleep(0.01)
                st = read()
            assert st.submitted == len(want), "%d of %d calls counted" % (st.submitted, len(want))
            assert st.done == len(want), "%d of %d calls counted as done" % (st.done, len(want))
            assert st.success + st.error == st.done
            good = sum(1 for r in res if isinstance(r, int))
            bad = sum(1 for r in res if isinstance(r, ValueError))
            assert st.success >= good and st.error >= bad, (st.success, good, st.error, bad)
            assert st.sum_time >= 0 and st.processes == n
        finally:
            await loop.run_in_executor(None, ex.shutdown)
    asyncio.run(body())


FUZZ_S = 5
REAL = ("service", "pool")         # real time and processes
FUZZ = [("service", fuzz_service), ("pool", fuzz_pool)]
