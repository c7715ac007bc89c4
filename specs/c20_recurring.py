"""C20: aiomisc.recurring, aiomisc.periodic, aiomisc.cron."""
import asyncio
import itertools
from datetime import datetime, timezone

from pyvc import core, simloop
from pyvc.aio import Exc, NS, Ret, Suspend, drive
from pyvc.core import conj, disj, implies
from pyvc.load import Cut, load, need

ASSUME = ["tasks, futures, asyncio.sleep, gather and wait are used through their contracts",
          "utils.shield and utils.awaitable are used through their contracts (C10)",
          "a strategy raises StrategyExceptions only; the function raises Exceptions or CancelledError",
          "a run whose task was created before the stop may begin before the stop has finished, a "
          "shielded one may go on",
          "croniter gives the next matching time"]
CONTRACTS = ["RecurringCallback.start/_start (any number of runs)", "RecurringCallback._exec",
             "PeriodicCallback.start/stop (histories of up to 6 steps)",
             "CronCallback.start/stop/get_next"]

BOUNDED = {"periodic": "histories of six steps", "cron": "histories of six steps"}


class Quiet(Exception):
    def __bool__(self):
        return False


class Fut:
    """a future"""

    def __init__(self, w=None):
        self.w, self.state, self.value, self.cbs = w, None, None, []
        self.cancels = 0

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.state == "cancelled"

    def finish(self, state, value=None):
        self.state, self.value = state, value
        for cb in self.cbs:
            cb(self)

    def set_result(self, v):
        if self.state:
            raise asyncio.InvalidStateError
        self.finish("ret", v)

    def set_exception(self, v):
        if self.state:
            raise asyncio.InvalidStateError
        self.finish("exc", v)

    def exception(self):
        return self.value if self.state == "exc" else None

    def add_done_callback(self, cb, **kw):
        if self.state:
            cb(self)
        else:
            self.cbs.append(cb)

    def remove_done_callback(self, cb):
        self.cbs = [c for c in self.cbs if c != cb]

    def cancel(self, *a):
        if self.state:
            return False
        self.cancels += 1
        return True

    def result(self):
        if self.state == "ret":
            return self.value
        if self.state == "exc":
            raise self.value
        if self.state == "cancelled":
            raise asyncio.CancelledError
        raise asyncio.InvalidStateError

    def __await__(self):
        while not self.state:
            yield Suspend("wait", [self])
        return self.result()

    __iter__ = __await__


def world(ctx):
    mod = load("aiomisc.recurring", transform=ctx.sym)
    need(mod, "RecurringCallback", "StrategyStop", "StrategySkip", "StrategyException", "asyncio",
         "utils", "RecurringCallbackStatistic", "log")

    class W:
        pass
    w = W()
    w.mod, w.tasks, w.shielded = mod, [], []

    class Loop:
        closed = False

        def is_closed(self):
            return self.closed

        def time(self):
            return ctx.real("time")

        def create_future(self):
            return Fut(w)

        def create_task(self, coro, **kw):
            return ensure(coro)
    w.loop = Loop()

    def ensure(coro, **kw):
        if isinstance(coro, Fut):
            return coro
        t = Fut(w)
        t.coro = coro
        w.tasks.append(t)
        return t

    async def sleep(t, *a):
        await Suspend("sleep", t)

    async def gather(*aws, return_exceptions=False):
        res = []
        for a in aws:
            a = ensure(a)
            while not a.done():
                await Suspend("wait", [a])
            try:
                res.append(a.result())
            except BaseException as e:
                if not return_exceptions:
                    raise
                res.append(e)
        return res

    async def wait(fs, **kw):
        fs = list(fs)
        while not all(f.done() for f in fs):
            await Suspend("wait", fs)
        return set(fs), set()
    mod.asyncio = NS(asyncio, sleep=sleep, ensure_future=ensure, create_task=ensure, gather=gather,
                     wait=wait, get_event_loop=lambda: w.loop, get_running_loop=lambda: w.loop)

    def shield(func):
        def wrap(*a, **kw):
            inner = ensure(func(*a, **kw))
            w.shielded.append(inner)

            async def go():
                return await inner
            return go()
        return wrap

    def awaitable(func):
        if asyncio.iscoroutinefunction(func):
            return func

        async def value(v):
            return v

        def wrap(*a, **kw):
            r = func(*a, **kw)
            return r if hasattr(r, "__await__") else value(r)
        return wrap
    mod.utils = NS(mod.utils, shield=shield, awaitable=awaitable)

    class Stat:
        def __init__(self, name=None):
            self.call_count = self.done = self.fail = 0
            self.sum_time = 0
    mod.RecurringCallbackStatistic = Stat
    mod.log = NS(mod.log, exception=lambda *a, **k: None, warning=lambda *a, **k: None)
    return w


def series(ctx):
    """a series of any length: strategy, delay, run, strategy, ..."""
    w = world(ctx)
    mod = w.mod

    class G:
        active = 0          # runs of the function which are going on
        stopped = False     # stop was called
        wants = None        # the delay of the next run
        slept = 0
        due = False         # a run has to come
        skip = None
        over = False
        n = 0
    arg, kwarg = object(), object()
    shielded = bool(ctx.choose(2, "shield"))
    quiet = bool(ctx.choose(2, "suppress"))

    async def func(a, k=None):
        ctx.check(a is arg and k is kwarg, "the function gets its arguments")
        ctx.check(G.active == 0, "runs do not overlap")
        ctx.check(not G.stopped or shielded, "no run begins after the stop")
        ctx.check(G.due, "a run for each delay")
        ctx.check(G.slept == G.wants, "each run comes after the delay of the strategy")
        G.active += 1
        G.due = False
        try:
            return await Suspend("func")
        finally:
            G.active -= 1
            G.wants = G.skip = None
    sfunc = ctx.pick(("coroutine", "plain"), "function")

    def plain(a, k=None):
        return func(a, k)
    async_strategy = ctx.choose(2, "strategy")

    def ask(cb):
        ctx.check(cb is rc, "the strategy gets the callback")
        ctx.check(G.active == 0, "runs do not overlap")
        ctx.check(not G.over, "the series is over")
        ctx.check(not G.due, "a run for each delay")
        ctx.check(not G.stopped, "no run begins after the stop")
        if G.skip is not None:
            ctx.check(disj(G.slept == G.skip, G.skip < 0), "a skipped run is followed by its delay")
        G.n += 1
        k = ctx.pick(("delay", "delay", "negative", "skip", "stop", "wrong", "other"), "strategy says") \
            if ctx.sym or G.n < 6 else "stop"
        G.slept = 0
        G.skip = None
        if k == "delay":
            d = ctx.real("delay", 0)
            if not ctx.choose(3, "zero"):
                d = 0
            d = d if ctx.sym else float(d)
            G.wants = d
            G.due = True
            return d
        if k == "negative":
            d = ctx.real("negative")
            ctx.assume(d < 0)
            d = d if ctx.sym else float(d)
            G.wants = 0
            G.due = True
            return d
        if k == "skip":
            G.skip = ctx.real("skip", 0)
            raise mod.StrategySkip(G.skip)
        G.over = True
        if k == "stop":
            raise mod.StrategyStop()
        if k == "other":
            raise mod.StrategyException()
        return ctx.pick((None, "1", ()), "wrong delay")

    async def aask(cb):
        return ask(cb)
    rc = mod.RecurringCallback(func if sfunc == "coroutine" else plain, arg, name="x", k=kwarg)
    main = rc.start(aask if async_strategy else ask, loop=w.loop, shield=shielded,
                    suppress_exceptions=(Quiet,) if quiet else ())
    ctx.check(w.tasks == [main], "one series")

    def maybe_stop():
        if not G.stopped and ctx.choose(4, "stopped") == 3:
            G.stopped = True
            return True
        return False

    def run(t):
        """a task of the series runs to its end"""
        st, v = drive(t.coro, lambda q: inner(t, q))
        if st == "ret":
            t.finish("ret", v)
        elif isinstance(v, asyncio.CancelledError):
            t.finish("cancelled")
        else:
            ctx.check(isinstance(v, Exception), "unexpected", v)
            t.finish("exc", v)

    def inner(t, q):
        if q.kind == "func":
            if t.cancels and not ctx.choose(2, "cancellation ignored"):
                return Exc(asyncio.CancelledError())
            k = ctx.choose(4, "function")
            ctx.cover("run")
            if k == 0:
                return Ret(object())
            return Exc((None, ValueError("x"), Quiet(), asyncio.CancelledError())[k])
        if q.kind == "wait":
            f, = q.args[0]
            if hasattr(f, "coro") and not f.done():
                run(f)
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))

    def handler(q):
        if q.kind == "sleep":
            if maybe_stop():
                return Exc(asyncio.CancelledError())
            t = q.args[0]
            G.slept = G.slept + t
            return Ret(None)
        if q.kind == "wait":
            when = "never"
            if not G.stopped:
                when = ctx.pick(("never", "before", "during"), "stopped")
            ts = [t for t in w.tasks[1:] if not t.done() and t not in w.shielded]
            ctx.check(len(ts) <= 1, "runs do not overlap")
            if when == "before" or (when == "during" and shielded):
                G.stopped = True
                return Exc(asyncio.CancelledError())
            if when == "during":
                # the run has begun, but not ended
                G.stopped = True
                for t in ts:
                    t.begun = True
                G.due = False
                G.active += 1
                return Exc(asyncio.CancelledError())
            for t in ts:
                if t.cancels and getattr(t, "begun", False):
                    G.active -= 1
                    t.coro.close()
                    t.finish(ctx.pick(("cancelled", "ret"), "cancelled run"))
                elif t.cancels:
                    t.coro.close()      # cancelled before its first step
                    t.finish("cancelled")
                else:
                    run(t)
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))

    def havoc(c):
        G.slept, G.skip = c.real("slept", 0), None
        G.n = 0
        # the last iteration may have skipped
        if c.choose(2, "skipped before"):
            G.skip = G.slept
        del w.tasks[1:]
        del w.shielded[:]

    def inv(c):
        return [(G.active == 0, "runs do not overlap"), (not G.due, "a run for each delay"),
                (not G.over, "the series is over"), (not G.stopped, "no run begins after the stop"),
                (G.skip is None or disj(G.slept == G.skip, G.skip < 0),
                 "a skipped run is followed by its delay")]
    ctx.loops = {("while",): Cut(havoc, inv)}
    st, v = drive(main.coro, handler)
    if G.stopped:
        ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a stopped series is cancelled", v)
        if not shielded:
            ctx.check(G.active == 0, "a stopped series ends after its run")
            ctx.check(all(t.done() for t in w.tasks[1:]), "a stopped series ends after its run")
        ctx.cover("stopped")
    else:
        ctx.check(st == "ret", "the series does not fail", v)
        ctx.check(G.over, "the series goes on until the strategy ends it")
        ctx.cover("ended")


def execute(ctx):
    """one run and its statistics"""
    w = world(ctx)
    mod = w.mod
    calls = []

    async def func(*a, **kw):
        calls.append((a, kw))
        return await Suspend("func")
    rc = mod.RecurringCallback(func, 1, name="x", b=2)
    k = ctx.choose(4, "function")
    e = (None, ValueError("x"), Quiet(), asyncio.CancelledError())[k]
    quiet = ctx.choose(2, "suppress")
    st, v = drive(rc._exec(w.loop, (Quiet,) if quiet else ()),
                  lambda q: Exc(e) if e is not None else Ret(1))
    ctx.check(calls == [((1,), {"b": 2})], "the function is called once")
    if k == 3:
        ctx.check(st == "exc" and v is e, "a cancelled run is cancelled")
    else:
        ctx.check(st == "ret", "a failing function does not stop the series", v)


def starting(ctx, name):
    mod = load("aiomisc." + name, transform=ctx.sym)
    need(mod, "asyncio", "RecurringCallback")
    main = []

    class Loop:
        def create_future(self):
            return Fut()

        def is_running(self):
            return True
    loop = Loop()

    class Recurring:
        def __init__(self, func, *a, **kw):
            self.made = (func, a, kw)
            self.name = "x"

        def start(self, strategy, loop=None, *, shield=False, suppress_exceptions=()):
            t = Fut()
            t.strategy, t.loop, t.opts = strategy, loop, (shield, suppress_exceptions)
            main.append(t)
            return t

    class Gather:
        def __init__(self, fs, re):
            self.fs, self.re = fs, re
    mod.RecurringCallback = Recurring
    mod.asyncio = NS(asyncio, gather=lambda *fs, return_exceptions=False: Gather(fs, return_exceptions),
                     get_event_loop=lambda: loop, get_running_loop=lambda: loop)
    return mod, loop, main


def history(ctx, name, make):
    """start, stop and the end of stopped series in any order"""
    mod, loop, main = starting(ctx, name)
    cb, start = make(mod, loop)
    cb._loop = loop
    current = None      # the series which was started and not stopped
    last = None
    for step in range(6):
        live = [t for t in main if t.cancels and not t.done()]
        op = ctx.pick(("start", "stop", "end"), "op")
        if op == "start":
            n = len(main)
            try:
                start(cb)
                ok = True
            except asyncio.InvalidStateError:
                ok = False
            if current is not None:
                ctx.check(not ok and len(main) == n, "a running callback can not be started")
            elif name == "periodic" or last is None or last.done():
                ctx.check(ok and len(main) == n + 1, "a stopped callback can be started")
                current = last = main[-1]
                ctx.check(current.loop is loop, "the loop given is used")
            else:
                # may be refused until the stopped series has ended
                if ok:
                    ctx.check(len(main) == n + 1, "a stopped callback can be started")
                    current = last = main[-1]
        elif op == "stop":
            r = cb.stop()
            for t in main:
                if t is not current:
                    continue
                ctx.check(t.cancels == 1, "stop cancels the running series")
                fs = r.fs if hasattr(r, "fs") else (r,)
                ctx.check(any(f is t for f in fs), "stop gives the stopped series")
                ctx.cover("stopped")
            current = None
        elif live:
            t = live[ctx.choose(len(live), "which")]
            t.finish("cancelled")
            ctx.cover("ended")
        ctx.check(sum(1 for t in main if not t.cancels) == (1 if current is not None else 0),
                  "exactly one running series")


STATES = ("new", "running", "stopping", "stopped", "ended")


def attributes(cb, roles):
    """everything a callback knows, its series by their roles"""
    names = [n for k in type(cb).__mro__ for n in (k.__dict__.get("__slots__") or ())
             if n not in ("__weakref__", "__dict__")]
    got = {n: getattr(cb, n) for n in names if hasattr(cb, n)}
    got.update(getattr(cb, "__dict__", {}))
    res = {}
    for n, v in got.items():
        if isinstance(v, Fut):
            res[n] = [k for k, t in roles.items() if t is v] or ["a series of the past"]
        elif v is None or isinstance(v, (int, str, float)):
            res[n] = v
        else:
            res[n] = type(v).__name__
    return res


def any_history(ctx, name, make):
    """one operation in any state.  What a callback knows is the same after any
    history that leads to this state (attributes() of a callback brought there
    on the shortest way), so the steps below settle histories of any length"""
    mod, loop, main = starting(ctx, name)
    state = ctx.pick(STATES, "state")

    def fresh():
        cb, start = make(mod, loop)
        cb._loop = loop
        return cb, lambda: start(cb)

    def begin(start):
        n = len(main)
        try:
            start()
        except asyncio.InvalidStateError:
            ctx.check(len(main) == n, "exactly one running series")
            return None
        ctx.check(len(main) == n + 1, "a stopped callback can be started")
        return main[-1]

    def lead(cb, start, state):
        """the shortest way to a state"""
        if state == "new":
            return None
        t = begin(start)
        ctx.check(t is not None, "a stopped callback can be started")
        if state == "ended":
            t.finish("ret")
        elif state != "running":
            cb.stop()
            if state == "stopped":
                t.finish("cancelled")
        return t

    def looks(state):
        cb, start = fresh()
        t = lead(cb, start, state)
        return attributes(cb, {"last": t}), t is not None and len(t.cbs)
    cb, start = fresh()
    past = None
    if state != "new" and ctx.choose(2, "past"):
        past = begin(start)
        cb.stop()
        if ctx.choose(2, "past series has ended"):
            past.finish("cancelled")
    n = len(main)
    if past is not None and not past.done():
        if begin(start) is None:
            return      # refused until the stopped series has ended
        t = main[-1]
        if state == "ended":
            t.finish("ret")
        elif state != "running":
            cb.stop()
            if state == "stopped":
                t.finish("cancelled")
    else:
        t = lead(cb, start, state)
    ctx.check(len(main) == n + (state != "new"), "exactly one running series")

    def here(state, what):
        got = attributes(cb, {"last": t}), t is not None and len(t.cbs)
        want = looks(state)
        if got != want:
            raise core.Unsupported("%s: %s instead of %s" % (what, got, want))
    here(state, "a state does not depend on what happened before")
    ops = ["start", "stop"]
    if past is not None and not past.done():
        ops.append("past ends")
    if state in ("running", "stopping"):
        ops.append("ends")
    op = ctx.pick(ops, "op")
    n, before = len(main), t
    if op == "start":
        new = begin(start)
        if state == "running":
            ctx.check(new is None, "a running callback can not be started")
        elif name == "periodic" or state != "stopping":
            ctx.check(new is not None and new.loop is loop and not new.cancels, "a stopped callback can be started")
        if new is not None:
            t, state = new, "running"
        if before is not None and before is not t:
            # a series of the past
            ctx.check(before.cancels == 1 or before.done(), "exactly one running series")
    elif op == "stop":
        r = cb.stop()
        if state == "running":
            ctx.check(t.cancels == 1, "stop cancels the running series")
            fs = r.fs if hasattr(r, "fs") else (r,)
            ctx.check(any(f is t for f in fs), "stop gives the stopped series")
            state = "stopping"
            ctx.cover("stopped")
        elif state == "ended":
            state = "stopped"
        ctx.check(len(main) == n, "exactly one running series")
    elif op == "ends":
        t.finish("ret" if state == "running" else "cancelled")
        state = "ended" if state == "running" else "stopped"
    else:
        past.finish("cancelled")
    ctx.check(len([x for x in {id(x): x for x in (past, before, t) if x is not None}.values()
                   if not x.cancels and not x.done()]) == (state == "running"), "exactly one running series")
    if state == "running":
        ctx.check(not t.cancels, "only stop ends a series")
    here(state, "a state does not depend on what happened before")
    ctx.cover("end")


def periodic_step(ctx):
    periodic(ctx, any_history)


def cron_step(ctx):
    cron(ctx, any_history)


def periodic(ctx, history=history):
    delay, interval = ctx.real("delay", 0), ctx.real("interval", 0)
    ctx.assume(interval > 0)

    async def f():
        pass

    def make(mod, loop):
        need(mod, "PeriodicCallback")
        return mod.PeriodicCallback(f), lambda cb: cb.start(interval, loop=loop, delay=delay)
    history(ctx, "periodic", make)


def cron(ctx, history=history):
    async def f():
        pass

    def make(mod, loop):
        need(mod, "CronCallback")
        return mod.CronCallback(f), lambda cb: cb.start("* * * * *", loop=loop)
    history(ctx, "cron", make)


def memory(f):
    """everything a function remembers between its calls"""
    import types
    if not isinstance(f, types.FunctionType):
        raise core.Unsupported("another strategy")
    res = {}
    for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        v = c.cell_contents
        if isinstance(v, (dict, list, set)) or hasattr(v, "__next__"):
            raise core.Unsupported("a strategy with a history")
        res[n] = v if isinstance(v, (bool, int, float, str)) else id(v)
    return res


def delays(ctx):
    """the strategy of a periodic callback: the delay, then always the interval"""
    mod, loop, main = starting(ctx, "periodic")
    need(mod, "PeriodicCallback")
    delay, interval = ctx.real("delay", 0), ctx.real("interval", 0)
    ctx.assume(interval > 0)
    arg = object()

    async def f(*a):
        pass
    cb = mod.PeriodicCallback(f, arg, k=arg)
    shield, quiet = bool(ctx.choose(2, "shield")), (Quiet,) if ctx.choose(2, "quiet") else ()
    for s in range(2):
        cb.start(interval, loop=loop, delay=delay, shield=shield, suppress_exceptions=quiet)
        t = main[-1]
        rc = object()
        ctx.check(t.opts == (shield, quiet), "options are passed on")
        got = [t.strategy(rc) for _ in range(4)]
        ctx.check(conj(got[0] == delay, *[g == interval for g in got[1:]]),
                  "first the delay, then the interval")
        # what the strategy knows does not change any more, nor do its delays
        knows = memory(t.strategy)
        ctx.check(t.strategy(rc) == interval, "first the delay, then the interval")
        if memory(t.strategy) != knows:
            raise core.Unsupported("a strategy with a history")
        cb.stop()
        if ctx.choose(2, "ended"):
            t.finish("cancelled")
    ctx.cover("end")


def next_time(ctx):
    """the strategy of a cron callback: the time to the next matching time"""
    mod, loop, main = starting(ctx, "cron")
    need(mod, "CronCallback", "croniter", "datetime")
    now = ctx.real("now", 0)
    nxt = ctx.real("next", 0)
    ctx.assume(nxt > now)
    seen = []

    class Cron:
        def __init__(self, spec, *a, **kw):
            ctx.check(spec == "1 2 * * *", "the spec is used")

        def get_next(self, ret_type=float, start_time=None):
            if start_time is not None:
                ctx.check(start_time == now, "the next time after now")
            return nxt
    mod.croniter = Cron

    class Now:
        @staticmethod
        def now(tz=None):
            ctx.check(tz is not None, "a time with a time zone")

            class D:
                @staticmethod
                def timestamp():
                    return now
            return D
    mod.datetime = Now

    async def f(*a):
        pass
    cb = mod.CronCallback(f)
    shield, quiet = bool(ctx.choose(2, "shield")), (Quiet,) if ctx.choose(2, "quiet") else ()
    cb.start("1 2 * * *", loop=loop, shield=shield, suppress_exceptions=quiet)
    ctx.check(main[-1].opts == (shield, quiet), "options are passed on")
    d = main[-1].strategy(object())
    ctx.check(d == nxt - now, "the delay ends at the next matching time")
    ctx.cover("end")


HARNESSES = [("series", series), ("execute", execute), ("periodic, any history", periodic_step), ("cron, any history", cron_step),
             ("periodic", periodic), ("cron", cron),
             ("delays", delays), ("next_time", next_time)]


def fuzz_series(rng):
    from aiomisc import recurring

    async def main(loop):
        t0 = loop.time()
        starts, log = [], []
        active = 0
        plan = []
        for i in range(rng.choice((1, 3, 8))):
            plan.append(rng.choice((0, 0.5, 2, 0.001, -1, "skip", 3)))
        plan.append("stop")
        it = iter(plan)
        expect = [t0]

        async def func(x):
            nonlocal active
            active += 1
            assert active == 1, "runs overlap"
            starts.append(loop.time())
            assert abs(loop.time() - expect[0]) < 1e-6, "not after its delay"
            try:
                await asyncio.sleep(rng.choice((0, 0.7, 10)))
                r = rng.random()
                if r < 0.2:
                    raise ValueError
                if r < 0.4:
                    raise Quiet
                if r < 0.5:
                    raise asyncio.CancelledError
            finally:
                active -= 1

        async def strategy(rc):
            assert active == 0, "runs overlap"
            p = next(it)
            log.append(p)
            if rng.random() < 0.3:
                await asyncio.sleep(0.1)
            if p == "stop":
                raise recurring.StrategyStop
            if p == "skip":
                raise recurring.StrategySkip(rng.choice((0, 1)))
            expect[0] = loop.time() + max(p, 0)
            return p
        rc = recurring.RecurringCallback(func, 5)
        shield = rng.random() < 0.3
        t = rc.start(strategy, loop, shield=shield,
                     suppress_exceptions=(Quiet,) if rng.random() < 0.5 else ())
        stop = rng.random() < 0.5
        if stop:
            await asyncio.sleep(rng.choice((0, 0.5, 2, 5.3, 20)))
            t.cancel()
            ended = t.done()
            await asyncio.wait([t])
            n = len(starts)
            assert ended or shield or active == 0, "stopped during a run"
            await asyncio.sleep(100)
            assert len(starts) <= n + (1 if shield else 0), "a run after the stop"
        else:
            await t
            assert log == plan, "the series does not follow its strategy"
            assert len(starts) == sum(1 for p in plan if not isinstance(p, str)), "a run is missing"
        bad = [c for c in loop.errors if "never retrieved" not in c.get("message", "")]
        assert not bad, bad
    simloop.run(main)


def fuzz_restart(rng):
    """start and stop of a periodic callback"""
    import aiomisc
    from aiomisc import periodic

    async def main(loop):
        starts = []
        active = 0
        slow = rng.choice((0, 0, 0.3, 5))
        stubborn = rng.random() < 0.3

        async def func():
            nonlocal active
            starts.append(loop.time())
            try:
                await asyncio.sleep(slow)
                if rng.random() < 0.2:
                    raise ValueError
            except asyncio.CancelledError:
                if stubborn:
                    await asyncio.sleep(0.5)
                raise
        cb = periodic.PeriodicCallback(func)
        cb._loop = loop
        running = False
        waits = []
        for _ in range(rng.randrange(1, 8)):
            op = rng.choice(("start", "stop", "sleep", "sleep", "yield"))
            if op == "start":
                try:
                    cb.start(1, loop, delay=rng.choice((0, 0.4)))
                    assert not running, "started twice"
                    running = True
                except asyncio.InvalidStateError:
                    assert running, "a stopped callback can not be started"
            elif op == "stop":
                f = cb.stop(return_exceptions=rng.random() < 0.5)
                waits.append(f)
                f.add_done_callback(lambda f: f.cancelled() or f.exception())
                if running and rng.random() < 0.5:
                    await asyncio.wait([f])
                running = False
            elif op == "sleep":
                await asyncio.sleep(rng.choice((0.1, 0.7, 3)))
            else:
                await asyncio.sleep(0)
        if waits:
            await asyncio.wait(waits)
        n = len(starts)
        if running:
            k = len(starts)
            await asyncio.sleep(20)
            assert len(starts) > k, "the series does not go on"
            # one series: never two runs closer than the interval
            s = starts[k + 1:]
            assert all(b - a > 0.99 for a, b in zip(s, s[1:])), "more than one series"
            f = cb.stop(return_exceptions=True)
            r = await asyncio.wait_for(f, 100)
            assert not any(isinstance(x, RuntimeError) for x in r), "a running callback can not be stopped"
            n = len(starts)
        await asyncio.sleep(50)
        assert len(starts) == n, "a run after the stop"
    simloop.run(main)


def fuzz_cron(rng):
    from aiomisc import cron
    from croniter import croniter
    spec = rng.choice(("* * * * *", "*/5 * * * *", "0 * * * *", "1 2 * * *", "* * * * * */10", "0 0 1 1 *"))
    c = croniter(spec)
    for _ in range(3):
        a = datetime.now(timezone.utc).timestamp()
        d = cron.CronCallback.get_next(c, None)
        b = datetime.now(timezone.utc).timestamp()
        want = [croniter(spec).get_next(float, t) for t in (a, b)]
        assert want[0] - b - 1e-3 <= d <= want[1] - a + 1e-3, "not the next matching time"


def fuzz_crons(rng):
    """start and stop of a cron callback"""
    from aiomisc import cron

    async def main(loop):
        active, runs = [0], []
        stubborn = rng.random() < 0.5

        async def func():
            active[0] += 1
            runs.append(loop.time())
            assert active[0] == 1, "runs overlap"
            try:
                await asyncio.sleep(rng.choice((0, 3, 8)))
            except asyncio.CancelledError:
                if stubborn:
                    await asyncio.sleep(12)
                raise
            finally:
                active[0] -= 1
        errors = []

        async def guarded():
            try:
                await func()
            except AssertionError as e:
                errors.append(str(e))
                raise
        cb = cron.CronCallback(guarded)
        cb._loop = loop
        last = None
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < 0.5:
                try:
                    cb.start("* * * * * */5", loop)
                    last = None
                except asyncio.InvalidStateError:
                    pass
            else:
                last = cb.stop()
                last.add_done_callback(lambda f: f.cancelled() or f.exception())
                if rng.random() < 0.3:
                    await asyncio.wait([last])
                    n = len(runs)
                    await asyncio.sleep(30)
                    assert len(runs) == n, "a run after the stop"
            await asyncio.sleep(rng.choice((0, 0, 1, 7)))
        f = cb.stop()
        f.add_done_callback(lambda f: f.cancelled() or f.exception())
        await asyncio.wait([f])
        n = len(runs)
        await asyncio.sleep(30)
        assert len(runs) == n, "a run after the stop"
        assert not errors, errors[0]
    simloop.run(main)


FUZZ = [("series", fuzz_series), ("restart", fuzz_restart), ("cron", fuzz_cron),
        ("crons", fuzz_crons)]
FUZZ_S = 4
