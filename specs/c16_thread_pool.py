"""C16: aiomisc.thread_pool.ThreadPoolExecutor."""
import asyncio
import contextvars
import threading
import time

from pyvc import core, simthreads
from pyvc.aio import NS, Sink
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["threads, locks, events and SimpleQueue are used through their contracts",
          "call_soon_threadsafe runs each callback once in the loop's thread while the loop is open",
          "a thread of a pool whose event loop has been closed is allowed to end",
          "executions under a scheduler which preempts at every line are samples"]
CONTRACTS = ["WorkItem.__call__ (with the callback it schedules)", "thread_pool_thread_loop (any number of items)",
             "ThreadPoolExecutor.submit/_adjust_thread_count (one step, any number of threads and calls)",
             "ThreadPoolExecutor.shutdown (any number of calls)", "TaskChannel"]
BOUNDED = {"sizes": "histories of 14 submits, pools of up to 9 workers", "shutdown": "three calls, two threads",
           "channel": "histories of five operations"}
VAR = contextvars.ContextVar("c16", default="outside")


class Falsy(Exception):
    def __bool__(self):
        return False


class Fatal(BaseException):
    pass


class Stat:
    def __init__(self, name=None):
        self.name = name
        self.threads = self.done = self.error = self.success = self.submitted = 0
        self.sum_time = 0


class Fut:
    """an asyncio future: only its loop changes it"""

    def __init__(self, ctx, G):
        self.ctx, self.G, self.state, self.cbs = ctx, G, None, []

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.state == "cancelled"

    def _set(self, st):
        self.ctx.check(not self.G.thread, "a future is settled by its loop")
        if self.state is not None:
            raise asyncio.InvalidStateError("invalid state")
        self.state = st

    def set_result(self, v):
        self._set(("ret", v))

    def set_exception(self, e):
        if isinstance(e, type):
            e = e()
        self._set(("exc", e))

    def cancel(self, msg=None):
        if self.state is None:
            self.state = "cancelled"
            return True
        return False

    def add_done_callback(self, cb):
        self.cbs.append(cb)


class OutcomeG:
    pass


OUT = [("ret", 5), ("ret", None), ("exc", ValueError("x")), ("exc", Falsy()), ("exc", Fatal()),
       ("exc", asyncio.CancelledError()), ("exc", SystemExit(1)), ("exc", asyncio.InvalidStateError())]


def item(ctx):
    mod = load("aiomisc.thread_pool", transform=ctx.sym)
    need(mod, "WorkItem")
    mod.log = Sink()

    class G:
        thread = False
        calls, queue, closed = 0, [], False
    fut = Fut(ctx, G)
    how = ctx.pick(("pending", "cancelled", "pool closed"), "before")
    if how == "cancelled":
        fut.cancel()
    elif how == "pool closed":
        fut.state = ("exc", "closed")
    before = fut.done()
    out = ctx.pick(OUT, "outcome")
    a, k = (object(),), {"k": object()}

    def func(*aa, **kk):
        G.calls += 1
        ctx.check(aa == a and kk == k, "the function is called with its arguments")
        ctx.check(VAR.get() == "submitter", "the function runs in the context of its submitter")
        meanwhile("while it runs")
        if out[0] == "exc":
            raise out[1]
        return out[1]

    def meanwhile(when):
        x = ctx.pick(("nothing", "cancel", "pool closed"), when) if not fut.done() else 0
        if x == "cancel":
            fut.cancel()
        elif x == "pool closed":
            fut.state = ("exc", "closed")

    class Loop:
        def is_closed(self):
            if not G.closed and ctx.choose(2, "loop closed"):
                G.closed = True
            return G.closed

        def call_soon_threadsafe(self, cb, *args, context=None):
            if G.closed:
                raise RuntimeError("Event loop is closed")
            G.queue.append((cb, args))
    tok = VAR.set("submitter")
    st = Stat()
    it = mod.WorkItem(func=func, statistic=st, future=fut, loop=Loop(), args=a, kwargs=k)
    VAR.reset(tok)
    G.thread = True
    try:
        it()
        res = None
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        res = e
    G.thread = False
    ctx.check(G.calls <= 1, "a function is called once")
    if before:
        ctx.check(G.calls == 0, "a call settled before it began is not made")
        ctx.check(res is None and not G.queue, "a skipped call ends nothing")
        ctx.cover("skipped")
        return
    if G.closed:
        ctx.check(fut.state in (None, "cancelled", ("exc", "closed")), "a closed loop is left alone")
        return
    ctx.check(res is None, "a failing function does not take the worker away", res)
    ctx.check(G.calls == 1, "a function is called once")
    ctx.check(len(G.queue) == 1, "the outcome is given to the loop once")
    meanwhile("before the loop gets it")
    was = fut.state
    cb, args = G.queue[0]
    try:
        cb(*args)
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        ctx.fail("settling does not fail", e)
    if was is not None:
        ctx.check(fut.state is was, "a settled future is left alone")
        ctx.cover("late")
    else:
        ctx.check(fut.state is not None and fut.state[0] == out[0] and fut.state[1] is out[1],
                  "the future gets the outcome of the function", (fut.state, out))
        ctx.cover("settled")


class Ev:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        if not self.flag and timeout is None:
            raise core.Unsupported("waits for an event")
        return self.flag

    def clear(self):
        self.flag = False


class RL:
    n = 0

    def acquire(self, *a, **k):
        self.n += 1
        return True

    def release(self):
        self.n -= 1

    def __enter__(self):
        self.n += 1

    def __exit__(self, *a):
        self.n -= 1


class World:
    pass


def world(ctx, m):
    mod = load("aiomisc.thread_pool", transform=ctx.sym)
    need(mod, "ThreadPoolExecutor", "TaskChannel", "ThreadPoolStatistic", "threading", "time",
         "asyncio", "TaskChannelCloseException")
    w = World()
    w.mod, w.started, w.created, w.queue, w.closed = mod, [], [], [], 0
    mod.log = Sink()

    class G:
        thread = False
    w.G = G

    class Thread:
        def __init__(self, target=None, name=None, daemon=None, args=(), kwargs=None):
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.daemon = daemon

        def start(self):
            ctx.check(self not in w.started, "a thread is started once")
            w.started.append(self)

        def is_alive(self):
            return True

        def join(self, timeout=None):
            pass

    class Channel:
        def put(self, it):
            w.queue.append(it)
        put_nowait = put

        def get(self, *a, **k):
            return w.get()

        def close(self):
            w.closed += 1
    mod.TaskChannel = Channel
    mod.ThreadPoolStatistic = Stat
    w.now = 0.0

    def sleep(t):
        w.now += t + 1      # other threads run
        w.sleep()
    w.sleep = lambda: None
    mod.time = NS(time, monotonic=lambda: w.now, time=lambda: w.now, sleep=sleep)
    mod.threading = NS(threading, Thread=Thread, Event=Ev, RLock=RL, Lock=RL)

    class Loop:
        def create_future(self):
            f = Fut(ctx, G)
            w.created.append(f)
            return f

        def is_closed(self):
            return False
    w.loop = Loop()
    mod.asyncio = NS(asyncio, get_event_loop=lambda: w.loop, get_running_loop=lambda: w.loop)
    w.pool = mod.ThreadPoolExecutor(m)
    return w


def worker(ctx):
    """any number of items"""
    w = world(ctx, 1)
    mod = w.mod
    ctx.check(len(w.started) == 1, "the pool has a thread")
    st = w.pool._statistic

    class G:
        held = None
        end = False

    class It:
        def __call__(self, no_return=False):
            ctx.check(G.held is self, "an item is called once")
            G.held = None
            if ctx.choose(3, "item") == 2:      # only when the loop has been closed
                G.end = True
                raise asyncio.CancelledError
            if ctx.choose(2, "shutdown meanwhile"):
                loops, ctx.loops = ctx.loops, {}
                w.pool.shutdown(wait=False)
                ctx.loops = loops

    def get():
        ctx.check(G.held is None, "every item taken is called")
        ctx.check(not G.end, "a stopped worker takes nothing")
        if w.closed or ctx.choose(3, "closed") == 2:
            G.end = True
            raise mod.TaskChannelCloseException()
        G.held = It()
        return G.held
    w.get = get

    def havoc(c):
        G.held = None

    def inv(c):
        return [(G.held is None, "every item taken is called"),
                (st.threads == 1, "a running thread is counted"),
                (not G.end, "a stopped worker takes nothing")]
    ctx.loops = {("while",): Cut(havoc, inv)}
    th = w.started[0]
    evs = [a for a in list(th.args) + list(th.kwargs.values()) if isinstance(a, Ev)]
    try:
        th.target(*th.args, **th.kwargs)
        res = None
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        res = e
    ctx.check(res is None, "a worker ends without an error", res)
    ctx.check(G.held is None, "every item taken is called")
    ctx.check(G.end or w.closed, "a worker ends only with its pool or loop")
    ctx.check(st.threads == 0, "an ended thread is not counted")
    ctx.check(evs and all(e.flag for e in evs) if w.closed else any(e.flag for e in evs),
              "an ended thread is known to have ended")
    ctx.cover("ended")


def sizes(ctx):
    """bounded: histories of submits and completions"""
    m = ctx.pick((1, 2, 3, 4, 7, 9), "max_workers")
    w = world(ctx, m)
    ctx.check(1 <= len(w.started) <= m, "at most max_workers threads")
    n = 14
    how = ctx.choose(3, "completions")
    for i in range(n):
        f, a, k = object(), (object(),), {"k": object()}

        def func(*aa, _i=i, **kk):
            return _i
        before = len(w.started)
        fut = w.pool.submit(func, i, k=i)
        ctx.check(len(w.queue) == i + 1, "a call is queued once")
        it = w.queue[-1]
        ctx.check(it.func is func and tuple(it.args) == (i,) and dict(it.kwargs) == {"k": i}
                  and it.future is fut and it.loop is w.loop, "the call submitted is queued")
        ctx.check(1 <= len(w.started) <= m, "at most max_workers threads")
        if how == 0:
            ctx.check(len(w.started) >= min(i + 1, m), "there is a thread for each of max_workers calls")
        if how == 2 or (how == 1 and i % 3 == 0):
            fut.state = ("ret", 1)
            for c in fut.cbs:
                c(fut)
    for bad in (None, 5, "x"):
        try:
            w.pool.submit(bad)
            ctx.fail("only functions are accepted")
        except ValueError:
            pass
    ctx.check(len(w.queue) == n, "a refused call is not queued")
    ctx.check(all(t.daemon for t in w.started), "threads do not keep the process")
    ctx.cover("submitted")


class Threads(SymSeq):
    """threads, any number of them: known by their number"""

    def __init__(self, n):
        SymSeq.__init__(self, n, lambda i: object(), "threads")

    vc_num = property(lambda self: self.n)

    def append(self, t):
        self.n = self.n + 1

    add = append

    def __add__(self, o):
        return Threads(self.n + (o.n if isinstance(o, SymSeq) else len(o)))

    __or__ = union = __add__

    def __vc_list__(self):
        return Threads(self.n)


class Futures(core.Abstract):
    """the futures of the calls not finished, any number of them"""

    def __init__(self, n):
        self.n, self.added = n, []

    def __vc_len__(self):
        return self.n + len(self.added)

    def add(self, f):
        self.added.append(f)

    def discard(self, f):
        if f in self.added:
            self.added.remove(f)
    remove = discard

    def __bool__(self):
        return bool(self.__vc_len__() > 0)


def submit(ctx):
    """one submit to a pool of any size with any number of calls under way"""
    if not ctx.sym:
        return sizes(ctx)
    w = world(ctx, 1)
    mod, pool = w.mod, w.pool
    pre = "_ThreadPoolExecutor__"
    need(pool, pre + "pool", pre + "max_workers", pre + "futures")
    if not isinstance(getattr(pool, pre + "pool"), frozenset) or not isinstance(getattr(pool, pre + "futures"), set):
        raise core.Unsupported("the pool is kept in another way")
    m, p, f = ctx.int("max_workers", 1), ctx.int("threads", 1), ctx.int("calls", 0)
    ctx.assume(p <= m)
    # a call waits for another only when there are max_workers threads
    ctx.assume(core.disj(f <= p, p >= m))
    setattr(pool, pre + "max_workers", m)
    setattr(pool, pre + "pool", Threads(p))
    futs = Futures(f)
    setattr(pool, pre + "futures", futs)
    real = frozenset
    mod.frozenset = lambda x=(): x if isinstance(x, SymSeq) else real(x)

    class G:
        started = 0
    del w.started[:]

    class Thread(w.mod.threading.Thread):
        def start(self):
            G.started = G.started + 1
            ctx.check(self.daemon, "threads do not keep the process")
    mod.threading = NS(mod.threading, Thread=Thread)

    def havoc(c):
        G.started = c.int("started", 0)

    def inv(c):
        r = [(G.started == c.iter_index, "one thread for each")]
        for v in c.loc.values():
            if isinstance(v, Threads):
                r.append((v.n == G.started, "every thread is kept"))
        return r

    def obj(c, nm, v):
        if isinstance(v, (list, set)) and not v or isinstance(v, Threads):
            return Threads(c.int("kept", 0))
        return v
    ctx.loops = {("for",): Cut(havoc, inv, obj=obj, ghosts=lambda c: {"started": G.started})}
    ok = ctx.choose(3, "function") != 2
    try:
        fut = pool.submit(max, 1, k=2) if ok else pool.submit(None)
        ctx.check(ok, "only functions are accepted")
    except ValueError:
        ctx.check(not ok, "functions are accepted")
        ctx.check(not w.queue, "a refused call is not queued")
        return
    got = getattr(pool, pre + "pool")
    if not isinstance(got, Threads):
        raise core.Unsupported("another pool")
    ctx.check(got.n == p + G.started, "every thread is counted")
    ctx.check(got.n <= m, "at most max_workers threads")
    ctx.check(got.n >= p, "threads are not forgotten")
    ctx.check(core.disj(f + 1 <= got.n, got.n >= m), "there is a thread for each of max_workers calls")
    ctx.check(len(w.queue) == 1 and w.queue[0].future is fut and w.queue[0].func is max
              and tuple(w.queue[0].args) == (1,) and dict(w.queue[0].kwargs) == {"k": 2}
              and w.queue[0].loop is w.loop, "the call submitted is queued, once")
    ctx.check(futs.added == [fut], "the call is known until it ends")
    ctx.cover("grown" if not isinstance(G.started, int) else "kept")


def shutdown(ctx):
    m = ctx.pick((1, 3), "max_workers")
    w = world(ctx, m)
    futs = [w.pool.submit(lambda: None) for _ in range(ctx.choose(4, "calls"))]
    for f in futs:
        x = ctx.pick(("pending", "done", "cancelled"), "future")
        if x == "done":
            f.state = ("ret", 1)
        elif x == "cancelled":
            f.cancel()
        if x != "pending" and ctx.choose(2, "callback ran"):
            for c in f.cbs:
                c(f)
        f.was = f.state
    slow = ctx.choose(2, "a thread hangs")
    ends = [[a for a in t.args if isinstance(a, Ev)] for t in w.started]

    def sleep():
        if w.now > 2:
            w.now += 3
            for i, x in enumerate(ends):
                if i == 0 and slow and w.now < 8:
                    continue
                for e in x:
                    e.flag = True
    w.sleep = sleep
    wait = bool(ctx.choose(2, "wait"))
    if slow and m == 1:
        w.sleep = lambda: None
    busy = slow and m > 1
    try:
        w.pool.shutdown(wait)
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.fail("shutdown does not fail", e)
    for f in futs:
        if f.was is not None:
            ctx.check(f.state is f.was, "a settled future is left alone")
        else:
            ctx.check(f.state is not None, "nothing queued is dropped silently")
            ctx.check(f.state == "cancelled" or f.state[0] == "exc", "a dropped call fails")
            ctx.cover("dropped")
    ctx.check(w.closed == 1, "the threads are told to end")
    if wait and (busy or not slow):
        ctx.check(all(e.flag for x in ends for e in x), "shutdown waits for the threads")
    if wait and busy:
        ctx.check(w.now >= 8, "shutdown waits for the threads")
    if wait:
        ctx.check(w.now <= 20, "shutdown ends although a thread hangs")
    n = len(w.queue)
    try:
        w.pool.submit(lambda: None)
        ctx.fail("a closed pool accepts nothing")
    except RuntimeError:
        pass
    ctx.check(len(w.queue) == n, "a closed pool accepts nothing")
    k = len(w.started)
    w.pool.shutdown(wait)
    ctx.check(w.closed == 1 and len(w.started) == k, "closing again does nothing")


class Some(core.Abstract):
    """a set of any size, seen from one member"""

    def __init__(self, ctx, mine, n, has, other):
        self.ctx, self.mine, self.n, self.has, self.other = ctx, mine, n, has, other

    vc_num = property(lambda self: self.n)

    def __vc_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def pop(self):
        if not self:
            raise KeyError("empty")
        if self.has and self.ctx.choose(2, "which"):
            self.has = False
            self.n = self.n - 1
            return self.mine
        self.ctx.assume(self.n > (1 if self.has else 0))
        self.ctx.feasible()
        self.n = self.n - 1
        return self.other()

    def discard(self, x):
        pass        # the end of a future settled here: the set is shut down


def shutdown_any(ctx):
    """shutdown with any number of calls under way"""
    if not ctx.sym:
        return shutdown(ctx)
    w = world(ctx, 1)
    mod, pool = w.mod, w.pool
    pre = "_ThreadPoolExecutor__"
    need(pool, pre + "futures")
    if not isinstance(getattr(pool, pre + "futures"), set):
        raise core.Unsupported("futures are kept in another way")
    states = ("pending", "done", "cancelled")

    def fut():
        f = Fut(ctx, w.G)
        x = ctx.pick(states, "future")
        if x == "done":
            f.state = ("ret", 1)
        elif x == "cancelled":
            f.state = "cancelled"
        return f
    mine = fut()
    was = mine.state
    n = ctx.int("calls", 1)
    futs = Some(ctx, mine, n, True, fut)
    setattr(pool, pre + "futures", futs)
    pend = [a for t in w.started for a in t.args if isinstance(a, Ev) and not a.flag]
    hang = ctx.choose(2, "a thread hangs")

    def sleep():
        if not hang:
            for t in w.started:
                for a in list(t.args) + list(t.kwargs.values()):
                    if isinstance(a, Ev):
                        a.flag = True
    w.sleep = sleep

    def obj(c, nm, v):
        if isinstance(v, Some):
            m = c.int("left", 0)
            has = bool(c.choose(2, "still there"))
            if has:
                c.assume(m >= 1)
            elif was is None and mine.state is None:
                mine.state = ("exc", OSError("closed"))
            return Some(ctx, mine, m, has, fut)
        return v

    def inv(c):
        r = []
        for v in c.loc.values():
            if isinstance(v, Some):
                r.append((v.has or mine.state is not None, "a call taken out is settled"))
        r.append((was is None or mine.state is was, "a settled future is left alone"))
        return r

    def havoc(c):
        if not any(isinstance(v, Some) for v in c.loc.values()):
            raise core.Unsupported("another loop")
    ctx.loops = {("ThreadPoolExecutor.shutdown", 0): Cut(havoc, inv, obj=obj)}
    wait = bool(ctx.choose(2, "wait"))
    try:
        pool.shutdown(wait)
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.fail("shutdown does not fail", e)
    if was is not None:
        ctx.check(mine.state is was, "a settled future is left alone")
    else:
        ctx.check(mine.state is not None, "nothing queued is dropped silently")
        ctx.check(mine.state == "cancelled" or mine.state[0] == "exc", "a dropped call fails")
        ctx.cover("dropped")
    ctx.check(w.closed == 1, "the threads are told to end")
    if wait:
        ctx.check(all(e.flag for e in pend) or w.now >= 9, "shutdown waits for the threads")
        ctx.check(w.now <= 20, "shutdown ends although a thread hangs")


def channel(ctx):
    mod = load("aiomisc.thread_pool", transform=False)
    need(mod, "TaskChannel", "TaskChannelCloseException")
    ch = mod.TaskChannel()
    items = []
    for _ in range(5):
        x = ctx.pick(("put", "get"), "operation")
        if x == "put":
            items.append(object())
            ch.put_nowait(items[-1])
        elif items:
            ctx.check(ch.get(timeout=0.01) is items.pop(0), "items are taken in order, once")
    ch.close()
    for _ in range(3):
        try:
            ch.get(timeout=0.01)
            ctx.fail("a closed channel gives nothing")
        except mod.TaskChannelCloseException:
            pass
    if ctx.choose(2, "close again"):
        ch.close()
    ctx.cover("closed")


HARNESSES = [("item", item), ("worker", worker), ("submit", submit), ("sizes", sizes), ("shutdown, any number", shutdown_any), ("shutdown", shutdown),
             ("channel", channel)]
_MOD = []


def fuzz(rng):
    if not _MOD:
        _MOD.append(simthreads.load("aiomisc.thread_pool"))
    mod = _MOD[0]
    mod.log = Sink()
    m = rng.choice((1, 2, 3, 5))

    class G:
        running, peak, ended = 0, 0, False
    calls = {}

    async def main(loop, sched):
        pool = mod.ThreadPoolExecutor(m)
        futs, out = {}, {}
        n = rng.randint(1, 7)
        slow = rng.random() < 0.5

        def func(i, x=None):
            calls[i] = calls.get(i, 0) + 1
            assert x == i + 1, "wrong arguments"
            G.running += 1
            G.peak = max(G.peak, G.running)
            try:
                simthreads.time.sleep(rng.choice((0, 0, 0.01, 1)) if slow else 0)
            finally:
                G.running -= 1
            if out[i][0] == "exc":
                raise out[i][1]
            return out[i][1]
        cancelled = {}
        early = rng.random() < 0.4
        cut = rng.randrange(n + 1) if early else n
        for i in range(cut):
            o = rng.choice(OUT)
            out[i] = o
            futs[i] = pool.submit(func, i, x=i + 1)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice((0, 0.001, 0.5)))
            if rng.random() < 0.2:
                j = rng.choice(list(futs))
                ran = calls.get(j, 0)
                if futs[j].cancel():
                    cancelled[j] = ran
        if not early:
            await asyncio.wait(list(futs.values()))
        pool.shutdown(wait=True)
        assert G.running == 0, "shutdown does not wait for the threads"
        try:
            pool.submit(func, 0, x=1)
            raise AssertionError("a closed pool accepts a call")
        except RuntimeError:
            pass
        n0 = dict(calls)
        await asyncio.sleep(20)
        assert calls == n0, "a call is made after the threads have ended"
        assert all(t.done for t in sched.threads[1:]), "a thread of a closed pool does not end"
        assert G.peak <= m and len(sched.threads) - 1 <= max(m, 1), "more threads than max_workers"
        assert not sched.errors, sched.errors
        for i, f in futs.items():
            assert f.done(), "a future is never settled"
            assert calls.get(i, 0) <= 1, "a function is called twice"
            if i in cancelled:
                assert f.cancelled()
                continue
            assert not (f.cancelled()), "a future is cancelled by nobody"
            e = f.exception()
            if early and isinstance(e, mod.ThreadPoolException):
                continue
            assert calls.get(i, 0) == 1, "a settled call was never made"
            if out[i][0] == "ret":
                assert e is None and f.result() is out[i][1], (e, out[i])
            else:
                assert e is out[i][1], (e, out[i])
        bad = [c for c in loop.errors if "never retrieved" not in c.get("message", "")]
        assert not bad, bad
    simthreads.run(rng, main, [mod])


FUZZ = [("schedules", fuzz)]
FUZZ_S = 6
