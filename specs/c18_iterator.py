"""C18: aiomisc.iterator_wrapper."""
import asyncio
import queue
import threading
import weakref

from pyvc import core, simthreads
from pyvc.aio import Exc, NS, Ret, Suspend, close_coro, drive
from pyvc.core import conj, disj, implies
from pyvc.load import Cut, load, need

ASSUME = ["queue.Queue, deque and asyncio.Event are used through their contracts; one thread "
          "produces, the other side may act between any two operations on the channel",
          "the executor runs the producing function once, call_soon_threadsafe runs each callback",
          "exceptions of generators are Exceptions",
          "executions under a scheduler which preempts at every line are samples"]
CONTRACTS = ["FromThreadChannel.get/__await__ (any number of items)", "FromThreadChannel.put",
             "IteratorWrapper._in_thread (any number of items)", "IteratorWrapper.__anext__",
             "IteratorWrapper.close/wait_closed/__aiter__/__aexit__"]


class Falsy(Exception):
    def __bool__(self):
        return False


class It:
    """the i-th item"""

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return False


def chan(ctx, on_put=None):
    """a channel over a queue known by two counters: taken, put"""
    mod = load("aiomisc.iterator_wrapper", transform=ctx.sym)
    need(mod, "FromThreadChannel", "ChannelClosed", "QueueEmpty", "Queue", "deque", "time", "asyncio")
    limit = ctx.pick((0, 2), "limit")

    class G:
        taken = ctx.int("taken", 0, near=2)
        put = ctx.int("put", 0, near=4)
        interfere = staticmethod(lambda: None)
        held = None
        looked = False          # for an item which was not there
    ctx.assume(G.put >= G.taken)
    if limit:
        ctx.assume(G.put <= G.taken + limit)

    class Deq:
        def __init__(self, *a):
            ctx.check(not limit, "a limit is kept")

        def __len__(self):
            return 1 if G.put > G.taken else 0

        def __vc_len__(self):
            return G.put - G.taken

        def __bool__(self):
            G.interfere()
            if G.put > G.taken:
                return True
            G.looked = True
            return False

        def popleft(self):
            if G.put <= G.taken:
                G.looked = True
                raise IndexError("pop from an empty deque")
            return take()

        def append(self, x):
            add(x)
            G.interfere()

    class Qu:
        def __init__(self, maxsize=0):
            ctx.check(maxsize == limit, "the limit is kept")
            self.maxsize = maxsize

        def put(self, x, block=True, timeout=None):
            G.interfere()
            if limit and G.put >= G.taken + limit:
                ctx.check(not block or timeout is not None,
                          "a producer never waits for a consumer which is gone")
                if not ctx.choose(2, "space in time"):
                    raise queue.Full
                ctx.assume(G.put >= 1)
                G.taken = G.taken + 1
            add(x)
            G.interfere()

        def put_nowait(self, x):
            self.put(x, False)

        def get(self, block=True, timeout=None):
            G.interfere()
            if G.put <= G.taken:
                ctx.check(not block, "the loop is not blocked")
                G.looked = True
                raise queue.Empty
            return take()

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            return bool(G.put <= G.taken)

        def qsize(self):
            return G.put - G.taken

    def take():
        G.taken = G.taken + 1
        return It(G.taken - 1)

    def add(x):
        ctx.check(x is G.held, "the item given is put")
        G.held = None
        G.put = G.put + 1
        if limit:
            ctx.check(G.put <= G.taken + limit, "the limit is kept")
    mod.Queue, mod.deque = Qu, Deq
    mod.time = lambda: ctx.real("time")

    async def sleep(t, *a):
        await Suspend("sleep", t)
    mod.asyncio = NS(asyncio, sleep=sleep)

    base = mod.FromThreadChannel

    class C(base):
        @property
        def is_closed(self):
            G.interfere()
            return base.is_closed.fget(self)
    G.closed = lambda: base.is_closed.fget(G.ch)
    G.ch = C(limit)
    return mod, G, limit


def consume(ctx):
    """one get: the next item, or closed and nothing left"""
    mod, G, limit = chan(ctx)
    G.taken0 = G.taken

    def interfere():
        # the producer: puts, then may close
        if G.closed():
            return
        k = ctx.pick((0, 1, 2), "producer")
        if k:
            n = ctx.int("more", 0, near=1)
            if limit:
                ctx.assume(G.put + n <= G.taken + limit)
            G.put = G.put + n
        if k == 2:
            G.ch.close()
    G.interfere = interfere
    if ctx.choose(2, "closed"):
        G.ch.close()

    def havoc(c):
        G.put = c.int("put", 0)
        c.assume(G.put >= G.taken)
        if limit:
            c.assume(G.put <= G.taken + limit)
        if not G.closed() and c.choose(2, "closed by now"):
            G.ch.close()
        G.looked = False

    def inv(c):
        return [(G.taken == G.taken0, "no item is lost"),
                (not G.looked, "a waiting consumer lets its loop run")]
    ctx.loops = {("while",): Cut(havoc, inv)}

    def handler(q):
        if q.kind == "sleep":
            ctx.check(q.args[0] <= 1, "the consumer looks again within a second")
            G.looked = False
            interfere()
            if ctx.choose(4, "cancelled") == 3:
                G.over = True
                return Exc(asyncio.CancelledError())
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))
    G.over = False
    st, v = drive(G.ch.get(), handler)
    if st == "ret":
        ctx.check(isinstance(v, It), "an item of the queue")
        ctx.check(conj(v.i == G.taken0, G.taken == G.taken0 + 1), "the items are given in order, each once")
        ctx.cover("item")
    elif isinstance(v, mod.ChannelClosed):
        ctx.check(G.closed(), "only a closed channel ends")
        ctx.check(G.taken == G.put, "the end comes after the last item")
        ctx.cover("end")
    else:
        ctx.check(isinstance(v, asyncio.CancelledError) and G.over, "getting does not fail", v)
        ctx.check(G.taken == G.taken0, "a cancelled consumer takes nothing")


def produce(ctx):
    """one put: the item is in the queue once, or the channel is closed"""
    mod, G, limit = chan(ctx)
    put0 = G.put

    def interfere():
        k = ctx.choose(3, "consumer")
        if k == 1:
            n = ctx.int("taken more", 0, near=1)
            ctx.assume(G.taken + n <= G.put)
            G.taken = G.taken + n
        elif k == 2 and not G.closed():
            G.ch.close()
    G.interfere = interfere
    item = object()
    G.held = item

    def havoc(c):
        if not G.closed() and c.choose(2, "closed by now"):
            G.ch.close()
        G.taken = c.int("taken", 0)
        c.assume(G.taken <= G.put)
        if limit:
            c.assume(G.put <= G.taken + limit)
    ctx.loops = {("while",): Cut(havoc, lambda c: [(G.put == put0, "the item is put once"),
                                                   (G.held is item, "the item is put once")])}
    try:
        G.ch.put(item)
        st = None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        st = e
    if st is None:
        ctx.check(conj(G.put == put0 + 1, G.held is None), "the item is put once")
        ctx.cover("put")
    else:
        ctx.check(isinstance(st, mod.ChannelClosed), "putting does not fail", st)
        ctx.check(G.closed(), "only a closed channel refuses")
        ctx.check(G.put == put0, "a refused item is not put")
        ctx.cover("refused")


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    async def wait(self):
        if not self.flag:
            await Suspend("event", self)
        return True


class World:
    pass


def wrapper(ctx):
    mod = load("aiomisc.iterator_wrapper", transform=ctx.sym)
    need(mod, "IteratorWrapper", "FromThreadChannel", "ChannelClosed", "asyncio",
         "IteratorWrapperStatistic")
    w = World()
    w.mod, w.soon, w.threads, w.events = mod, [], [], []
    w.limit = ctx.pick((0, 3), "limit")

    class Task:
        def __init__(self, coro):
            self.coro = coro

        def __await__(self):
            return self.coro.__await__()

    class Gen:
        """the future of the thread"""
        state = None

        def __await__(self):
            if self.state is None:
                yield Suspend("thread", self)
            if self.state == "exc":
                raise ValueError
            return None

    class Loop:
        def is_running(self):
            return True

        def call_soon_threadsafe(self, cb, *args):
            w.soon.append((cb, args))

        def run_in_executor(self, executor, fn, *a):
            ctx.check(executor is w.executor, "the executor given is used")
            w.threads.append(lambda: fn(*a))
            w.gen = Gen()
            return w.gen
    w.loop = Loop()

    def Ev():
        e = Event()
        w.events.append(e)
        return e

    async def gather(*aws, return_exceptions=False):
        res = []
        for a in aws:
            try:
                res.append(await a)
            except Exception as e:
                if not return_exceptions:
                    raise
                res.append(e)
        return res
    mod.asyncio = NS(asyncio, Event=Ev, ensure_future=lambda c, **k: Task(c), gather=gather,
                     get_running_loop=lambda: w.loop)

    class Chan:
        def __init__(self, maxsize=0):
            ctx.check(maxsize == w.limit, "the limit is kept")
            w.ch = self
            self.closed = 0

        @property
        def is_closed(self):
            w.interfere()
            return bool(self.closed)

        def close(self):
            self.closed += 1

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def put(self, x):
            w.interfere()
            if self.closed:
                raise mod.ChannelClosed
            w.put(x)

        async def get(self):
            return await Suspend("get")

        def __await__(self):
            return self.get().__await__()
    w.interfere = lambda: None
    mod.FromThreadChannel = Chan

    class Stat:
        def __init__(self, name=None):
            self.started = self.queue_size = self.queue_length = self.yielded = self.enqueued = 0
    mod.IteratorWrapperStatistic = Stat
    if hasattr(mod, "finalize"):
        mod.finalize = lambda *a, **k: None
    w.executor = object()
    return w


def thread(ctx):
    """the producing function: any number of items"""
    w = wrapper(ctx)
    mod = w.mod

    class G:
        made = 0        # items the generator has yielded
        sent = 0        # items put
        err = None      # the exception the generator has raised
        over = False
        last = None
        used = False
    w.user_closed = False
    kind = ctx.pick(("iterator", "generator"), "kind")

    def interfere():
        if not w.ch.closed and ctx.choose(2, "consumer closes"):
            w.ch.close()
            w.user_closed = True
    w.interfere = interfere

    def put(x):
        ctx.check(isinstance(x, tuple) and len(x) == 2, "items are marked")
        ctx.check(not G.over, "nothing follows the exception")
        if x[1]:
            ctx.check(G.err is not None and x[0] is G.err, "the exception is the generator's")
            ctx.check(G.sent == G.made, "the exception comes after the last item")
            G.over = True
        else:
            ctx.check(x[0] is G.last and G.last is not None, "the items are the generator's, in order")
            ctx.check(G.sent + 1 == G.made, "each item is put once, in order")
            G.sent = G.sent + 1
            G.last = None
    w.put = put

    def step():
        ctx.check(G.last is None, "the generator does not run ahead")
        x = ctx.choose(3, "generator") if ctx.sym or G.made < 5 else 1 + ctx.choose(2, "generator")
        if x == 1:
            raise StopIteration
        if x == 2:
            G.err = ctx.pick((ValueError("x"), Falsy(), mod.ChannelClosed()), "exception")
            raise G.err
        G.made = G.made + 1
        G.last = object()
        return G.last

    class Iter:
        def __iter__(self):
            return self

        def __next__(self):
            return step()

    def gen():
        try:
            while True:
                try:
                    v = step()
                except StopIteration:
                    return
                yield v
        finally:
            G.used = True

    def make():
        if ctx.choose(4, "function fails") == 3:
            G.err = Falsy()
            raise G.err
        return Iter() if kind == "iterator" else gen()
    it = mod.IteratorWrapper(make, max_size=w.limit, executor=w.executor, loop=w.loop)
    it.__aiter__()
    ctx.check(len(w.threads) == 1, "one thread")
    close_event = w.events[0]

    def havoc(c):
        G.made = G.sent = c.int("made", 0)
        G.last = None

    def inv(c):
        return [(G.sent == G.made, "each item is put once, in order"), (G.last is None, "no item is lost"),
                (not G.over, "nothing follows the exception")]
    if kind == "iterator":
        ctx.loops = {("while",): Cut(havoc, inv, obj=lambda c, n, v: v)}
    elif ctx.sym:
        lim = [0]
        step0 = step

        def step():
            lim[0] += 1
            if lim[0] > 3:
                raise StopIteration
            return step0()
    try:
        w.threads[0]()
        res = None
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        res = e
    ctx.check(w.ch.closed, "the channel is closed after the last item")
    ctx.check([cb for cb, a in w.soon if getattr(cb, "__self__", None) is close_event] != [] or w.soon,
              "the end is announced")
    for cb, a in w.soon:
        cb(*a)
    ctx.check(close_event.flag, "the end is announced")
    if not w.user_closed:
        ctx.check(res is None, "the thread does not fail", res)
        ctx.check(G.sent == G.made, "each item is put once, in order")
        ctx.check(G.over == (G.err is not None), "the exception is put")
        ctx.cover("exception" if G.over else "end")
    ctx.cover("closed")


def consumer(ctx):
    """__anext__"""
    w = wrapper(ctx)
    mod = w.mod
    it = mod.IteratorWrapper(lambda: None, max_size=w.limit, executor=w.executor, loop=w.loop)
    it.__aiter__()
    p = it.__aiter__()
    ctx.check(len(w.threads) == 1, "one thread")
    w.gen.state = None

    class G:
        asked = 0
        out = None
    ev = w.events[0]

    def handler(q):
        if q.kind == "get":
            G.asked += 1
            ctx.check(G.asked == 1, "an item is taken once")
            G.out = ctx.pick(("item", "exc", "closed", "cancel"), "channel")
            G.v = {"item": ctx.pick((object(), None, Falsy()), "item") if G.out == "item" else None,
                   "exc": Falsy("x") if G.out != "exc" else ctx.pick((Falsy("x"), StopIteration(1), asyncio.CancelledError()), "which"),
                   "closed": None, "cancel": None}[G.out]
            if G.out == "closed":
                w.ch.closed += 1
                return Exc(mod.ChannelClosed())
            if G.out == "cancel":
                return Exc(asyncio.CancelledError())
            if ctx.choose(2, "the generator has ended"):
                w.ch.closed = 1
            return Ret((G.v, G.out == "exc"))
        if q.kind == "event":
            ctx.check(w.ch.closed, "the end is waited for only when it comes")
            ev.set()
            G.waited = True
            return Ret(True)
        if q.kind == "thread":
            ctx.check(ev.flag, "first the event")
            w.gen.state = "ret" if ctx.choose(2, "thread") else "exc"
            G.joined = True
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))
    st, v = drive(p.__anext__(), handler)
    if G.out == "item":
        ctx.check(st == "ret" and v is G.v, "the item is given")
        ctx.cover("item")
    elif G.out == "exc":
        if isinstance(G.v, StopIteration):
            ctx.check(st == "exc", "the exception is raised")
        else:
            ctx.check(st == "exc" and v is G.v, "the exception is raised", v)
        ctx.check(w.ch.closed, "an exception ends the iteration")
        ctx.cover("exc")
    elif G.out == "closed":
        ctx.check(st == "exc" and isinstance(v, StopAsyncIteration), "the end is the end", v)
        ctx.check(getattr(G, "joined", False), "the end is awaited")
    else:
        ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancelled consumer is cancelled")


def closing(ctx):
    """close, wait_closed and the context manager at every point"""
    w = wrapper(ctx)
    mod = w.mod
    it = mod.IteratorWrapper(lambda: None, max_size=w.limit, executor=w.executor, loop=w.loop)
    ev = w.events[0]
    started = ctx.choose(2, "started")
    if started:
        keep = it.__aiter__()
        if ctx.choose(2, "already over"):
            w.ch.closed = 1
            if ctx.choose(2, "announced"):
                ev.set()
                if ctx.choose(2, "done"):
                    w.gen.state = "ret"

    class G:
        ended = False

    def handler(q):
        if q.kind == "event":
            # only a running thread sets the event
            ctx.check(started, "nobody waits for a thread which was not started")
            ctx.check(w.ch.closed, "the thread is told to stop before it is waited for")
            ev.set()
            return Ret(True)
        if q.kind == "thread":
            w.gen.state = ctx.pick(("ret", "exc"), "thread")
            G.ended = True
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))

    async def use(how):
        if how == "close":
            await it.close()
        elif how == "wait":
            c = it.close()
            await it.wait_closed()
            await c
        else:
            was = w.ch.closed
            async with it as x:
                ctx.check(x is it, "the context gives the iterator")
                if how == "fail":
                    raise Falsy()
            G.skip = was
    how = ctx.pick(("close", "wait", "context", "fail"), "how")
    st, v = drive(use(how), handler)
    if how == "fail":
        ctx.check(st == "exc" and isinstance(v, Falsy), "the context does not hide exceptions", v)
    else:
        ctx.check(st == "ret", "closing does not fail", v)
    ctx.check(w.ch.closed, "the generator is told to stop")
    if started and how in ("close", "wait"):
        ctx.check(w.gen.state is not None, "closing waits for the thread")
    if not started:
        # started after it has been closed
        keep = it.__aiter__()
        n = []
        w.interfere = lambda: None
        w.put = lambda x: ctx.fail("a closed iterator yields nothing")
    ctx.check(it.closed, "a closed iterator says so")
    ctx.cover(how)


HARNESSES = [("consume", consume), ("produce", produce), ("thread", thread), ("consumer", consumer),
             ("closing", closing)]
_MOD = []


def finalizer(obj, fn):
    def run():
        try:
            asyncio.get_running_loop()
        except RuntimeError:
            return      # the iterator outlived its loop
        fn()
    f = weakref.finalize(obj, run)
    f.atexit = False
    return f


def fuzz(rng):
    if not _MOD:
        _MOD.append(simthreads.load("aiomisc.iterator_wrapper"))
        if hasattr(_MOD[0], "finalize"):
            _MOD[0].finalize = finalizer
    mod = _MOD[0]
    size = rng.choice((0, 0, 1, 2, 5))
    n = rng.choice((0, 1, 2, 3, 6, 50))
    fail = rng.choice((None, None, ValueError("x"), Falsy()))
    pace = rng.choice((0, 0, 0.005, 0.3))
    items = [rng.choice((None, 0, (), Falsy())) if rng.random() < .2 else (i, "x")
             for i in range(n)]
    made, ended = [0], [False]

    ask = rng.random() < 0.2
    loops = []

    def gen():
        try:
            for i in range(n):
                if ask and rng.random() < 0.5:
                    # as sync_await does
                    ev = simthreads.threading.Event()
                    loops[0].call_soon_threadsafe(ev.set)
                    assert ev.wait(100), "a waiting consumer blocks its loop"
                if pace and rng.random() < 0.5:
                    simthreads.time.sleep(pace)
                made[0] += 1
                yield items[i]
            if fail is not None:
                raise fail
        finally:
            ended[0] = True

    class Plain:
        def __init__(self):
            self.g = gen()

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.g)

    async def main(loop, sched):
        loops.append(loop)
        cls = mod.IteratorWrapper
        it = cls(gen if rng.random() < 0.7 else Plain, max_size=size, executor=simthreads.Executor())
        how = rng.choice(("all", "all", "break", "close", "context", "late", "unused"))
        stop_at = rng.randrange(n + 2)
        got, err = [], None

        async def walk(stop):
            nonlocal err
            try:
                async for x in it:
                    got.append(x)
                    if size:
                        assert made[0] <= len(got) + size + 1, "the generator runs ahead"
                    if rng.random() < 0.2:
                        await asyncio.sleep(rng.choice((0, 0.01, 0.5)))
                    if stop is not None and len(got) >= stop:
                        return
            except (ValueError, Falsy) as e:
                err = e
        if how == "all":
            await walk(None)
        elif how == "break":
            async with it:
                await walk(stop_at)
        elif how == "context":
            async with it as j:
                await walk(None)
        elif how == "close":
            px = it.__aiter__()
            await walk(stop_at)
            await asyncio.wait_for(it.close(), 100)
        elif how == "late":
            t = loop.create_task(walk(None))
            await asyncio.sleep(rng.choice((0, 0.001, 0.1)))
            await asyncio.wait_for(it.close(), 100)
            await asyncio.wait_for(t, 100)
        else:
            async with it:
                pass
            await asyncio.wait_for(it.wait_closed(), 100)
        assert all(a is b for a, b in zip(got, items)), "the items are not in order"
        if how in ("all", "context"):
            assert len(got) == n, "items are lost"
            assert err is fail, "the exception is lost"
        if how in ("close", "late"):
            await asyncio.wait_for(it.wait_closed(), 100)
            assert not made[0] or ended[0], "closed, but the generator has not stopped"
        await asyncio.sleep(30)
        assert all(t.done for t in sched.threads[1:]), "the thread does not end"
        assert not sched.errors, sched.errors
        bad = [c for c in loop.errors if "never retrieved" not in c.get("message", "")]
        assert not bad, bad
    simthreads.run(rng, main, [mod], creep=2e-4)


FUZZ = [("schedules", fuzz)]
FUZZ_S = 6
