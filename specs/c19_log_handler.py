"""C19: aiomisc.log.ThreadedHandler."""
import logging
import queue
import threading as _threading
import types

from pyvc import core, simthreads
from pyvc.aio import NS
from pyvc.core import conj
from pyvc.load import Cut, load, need

ASSUME = ["queue.Queue is a FIFO queue with a limit, threading.Event and Thread are used through "
          "their contracts",
          "the wrapped handler raises Exceptions only and does not log to a full unbuffered handler",
          "the handler has been started before it is closed; a record is logged when its logging "
          "call has returned",
          "with a limit and buffering a record which finds the buffer full is refused",
          "executions under a scheduler which preempts at every line are samples"]
CONTRACTS = ["ThreadedHandler.handle/emit", "ThreadedHandler._in_thread (any number of records)",
             "ThreadedHandler.start/close/flush (any number of times)"]


class Rec:
    """the i-th record"""

    def __init__(self, i):
        self.i = i


def world(ctx):
    mod = load("aiomisc.log", transform=ctx.sym)
    need(mod, "ThreadedHandler", "Queue", "Empty", "threading", "ThreadedHandlerStatistic", "suppress")
    w = types.SimpleNamespace()
    w.mod = mod
    w.queues, w.threads, w.handled, w.direct = [], [], [], []
    w.in_thread = False
    w.waits = 0
    w.limit = ctx.pick((0, 5), "limit")
    w.buffered = bool(ctx.choose(2, "buffered"))

    class Queue:
        def __init__(self, maxsize=0):
            ctx.check(maxsize == w.limit, "the limit is kept")
            self.maxsize = maxsize
            w.queues.append(self)

        def put(self, x, block=True, timeout=None):
            return w.put(x, block, timeout)

        def put_nowait(self, x):
            return w.put(x, False, None)

        def get(self, block=True, timeout=None):
            return w.get(block, timeout)

        def get_nowait(self):
            return w.get(False, None)

        def empty(self):
            return w.size() == 0

        def qsize(self):
            return w.size()

    class Event:
        def __init__(self):
            self.flag = False

        def set(self):
            self.flag = True

        def clear(self):
            self.flag = False

        def is_set(self):
            if w.in_thread and not self.flag and w.interfere():
                pass
            return self.flag

        def wait(self, timeout=None):
            ctx.check(self.flag or timeout is not None, "the thread never waits for ever")
            w.waits += 1
            if w.waits > 100:
                ctx.fail("the thread looks at the queue")
            return self.flag

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self.fn = lambda: target(*args, **(kwargs or {}))
            self.started = 0
            self.alive = False
            self.joined = False
            w.threads.append(self)

        def start(self):
            self.started += 1
            self.alive = True
            ctx.check(self.started == 1, "one thread handles the records")

        def is_alive(self):
            return self.alive

        def join(self, timeout=None):
            if not self.started:
                raise RuntimeError("cannot join thread before it is started")
            ctx.check(not w.is_thread, "the thread does not wait for itself")
            if self.alive:
                ctx.check(timeout is None or timeout > 1e6, "closing waits for everything logged before")
                ctx.check(w.stopped, "the thread is told to stop before it is waited for")
            self.alive = False
            self.joined = True
    w.is_thread = False
    w.stopped = False
    w.interfere = lambda: False
    other = object()
    mod.threading = NS(_threading, Event=Event, Thread=Thread,
                       current_thread=lambda: w.threads[0] if w.is_thread else other)
    mod.Queue = Queue
    known = list(logging._handlerList)

    class Stat:
        def __init__(self, name=None):
            self.threads = self.records = self.errors = self.flushes = 0
    mod.ThreadedHandlerStatistic = Stat

    class Target(logging.Handler):
        def handle(self, record):
            w.handle(record)
    w.target = Target()
    w.handle = lambda r: ctx.fail("only the thread calls the wrapped handler")
    w.h = mod.ThreadedHandler(w.target, flush_interval=0.5, buffered=w.buffered, queue_size=w.limit)
    w.h.handleError = lambda r: None
    logging._handlerList[:] = known
    return w


def log(ctx):
    """one logging call: the record is queued once, at the end"""
    w = world(ctx)
    w.h.start()
    size = ctx.int("queued", 0, near=3)
    if w.limit:
        ctx.assume(size <= w.limit)
    out = []
    w.size = lambda: size
    filt = ctx.choose(2, "filtered")
    rec = logging.LogRecord("n", 20, "f", 1, "m", (), None)
    repl = logging.LogRecord("n", 20, "f", 1, "m", (), None)
    how = ctx.pick(("none", "pass", "drop", "replace"), "filter")
    if how != "none":
        w.h.addFilter({"pass": lambda r: True, "drop": lambda r: False, "replace": lambda r: repl}[how])

    def put(x, block, timeout):
        if w.limit and bool(size >= w.limit):
            if not block:
                raise queue.Full
            ctx.check(not w.buffered, "a buffered handler does not block")
            ctx.check(timeout is None, "a record which waits for space is not lost")
        out.append(x)
    w.put = put
    w.get = lambda *a: ctx.fail("only the thread takes records")
    try:
        w.h.handle(rec)
        err = None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        err = e
    ctx.check(err is None, "logging does not fail", err)
    if how == "drop":
        ctx.check(not out, "filtered records are not handled")
    elif w.limit and w.buffered and bool(size >= w.limit):
        ctx.check(not out, "the limit is kept")
        ctx.cover("refused")
    else:
        ctx.check(out == [repl if how == "replace" else rec], "the record is queued once")
        ctx.cover("queued")


def thread(ctx):
    """the thread: any number of records"""
    w = world(ctx)
    w.h.start()
    w.in_thread = w.is_thread = True

    class G:
        taken = 0       # records taken from the queue
        done = 0        # records handled
        over = False    # the end was taken
        closed = False
        n = 0
    ctx.n_conc = 0

    def close():
        if not G.closed and ctx.choose(2, "closed by now"):
            G.closed = True
            # what close() does to the events, before or after the queue
            for v in vars(w.h).values():
                if hasattr(v, "flag"):
                    v.flag = True
            return True
        return False
    w.interfere = close

    def get(block, timeout):
        ctx.check(not G.over, "nothing follows the end")
        ctx.check(G.taken == G.done, "a record is handled before the next one is taken")
        close()
        w.waits = 0
        G.n += 1
        k = ctx.choose(3, "queue") if ctx.sym or G.n < 6 else 2
        if k == 0:
            raise queue.Empty
        if k == 1:
            G.taken = G.taken + 1
            return Rec(G.taken - 1)
        ctx.assume(G.closed)
        G.over = True
        return None

    def handle(r):
        ctx.check(isinstance(r, Rec), "records are handled")
        ctx.check(r.i == G.done, "each record is handled once, in order")
        G.done = G.done + 1
        k = ctx.choose(3, "handler")
        if k == 1:
            raise ValueError
        if k == 2:
            raise queue.Empty
    w.get, w.handle = get, handle
    w.put = lambda *a: ctx.fail("the thread does not log")
    w.size = lambda: ctx.int("queued", 0)

    def havoc(c):
        G.taken = G.done = c.int("handled", 0)
        G.n = 0
        close()

    def inv(c):
        return [(G.taken == G.done, "each record is handled once, in order"),
                (not G.over, "the thread ends at the end")]
    ctx.loops = {("while",): Cut(havoc, inv)}
    before = w.h._statistic.threads
    w.threads[0].fn()
    ctx.check(G.over, "the thread does not end before the end")
    ctx.check(G.taken == G.done, "each record is handled once, in order")
    ctx.check(before == 1 and w.h._statistic.threads == 0, "the thread is counted while it runs")
    ctx.cover("end")


def close(ctx):
    """flush and close, any number of times, in the thread or outside"""
    w = world(ctx)
    w.h.start()
    ctx.check(len(w.threads) == 1 and w.threads[0].started == 1, "one thread handles the records")
    out = []

    def put(x, block, timeout):
        if w.limit and ctx.choose(2, "full"):
            ctx.check(block and timeout is None, "the end is not lost")
        out.append(x)
        if x is None:
            w.stopped = True
    w.put = put
    w.get = lambda *a: ctx.fail("only the thread takes records")
    w.size = lambda: ctx.int("queued", 0)
    rec = logging.LogRecord("n", 20, "f", 1, "m", (), None)
    w.limit, lim = 0, w.limit
    w.h.handle(rec)
    w.limit = lim
    w.is_thread = bool(ctx.choose(4, "closed by the wrapped handler") == 3)
    n = 1 + ctx.choose(3, "closings")
    try:
        w.h.flush()
        for i in range(n):
            w.h.close()
            if not w.is_thread:
                ctx.check(not w.threads[0].alive and w.threads[0].joined,
                          "closing waits for everything logged before")
        w.h.flush()
        w.h.handle(rec)
        err = None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        err = e
    ctx.check(err is None, "closing does not fail", err)
    ctx.check(out[0] is rec and out[1] is None, "the end follows everything logged before")
    ctx.check(len(w.threads) == 1 and w.threads[0].started == 1, "one thread handles the records")
    ctx.cover("inside" if w.is_thread else "outside")


HARNESSES = [("log", log), ("thread", thread), ("close", close)]
_MOD = []


def fuzz(rng):
    if not _MOD:
        _MOD.append(simthreads.load("aiomisc.log"))
    mod = _MOD[0]
    size = rng.choice((0, 0, 1, 3, 100))
    buffered = rng.random() < 0.6
    handled, who, open_ = [], set(), [True]
    slow = rng.choice((0, 0, 0.05, 5))
    chatty = rng.random() < 0.2 and buffered

    class Target(logging.Handler):
        def createLock(self):
            self.lock = simthreads.RLock()

        def emit(self, record):
            assert open_[0], "handled after closing"
            who.add(simthreads.CUR.cur)
            handled.append(record)
            if slow and rng.random() < 0.5:
                simthreads.time.sleep(slow)
            if chatty and record.msg == "x":
                log(logging.LogRecord("n", 20, "f", 1, "echo", (), None), 99)
            if rng.random() < 0.2:
                raise rng.choice((ValueError, queue.Empty, KeyError))()

    class H(mod.ThreadedHandler):
        def createLock(self):
            self.lock = simthreads.RLock()

        def handleError(self, record):
            refused.append(record)
    logged, refused = {}, []

    def log(rec, me):
        logged.setdefault(me, [])
        h.handle(rec)
        if rec not in refused:
            logged[me].append(rec)

    def main(sched):
        nonlocal h
        logging.raiseExceptions = False
        h = H(Target(), flush_interval=rng.choice((0.01, 0.1, 3)), buffered=buffered, queue_size=size)
        first = [logging.LogRecord("n", 20, "f", 1, "x", (), None) for _ in range(rng.choice((0, 0, 1)))]
        for r in first:
            log(r, 0)
        h.start()

        def logger(me):
            for i in range(rng.choice((0, 1, 2, 5))):
                if rng.random() < 0.4:
                    simthreads.time.sleep(rng.choice((0, 0.02, 0.1, 1)))
                t = simthreads.CUR.now
                log(logging.LogRecord("n", 20, "f", 1, "x", (), None), me)
                if buffered:
                    assert simthreads.CUR.now - t < 1.5, \
                        "logging waits for the wrapped handler"
                if rng.random() < 0.1:
                    h.flush()
        ts = [simthreads.Thread(target=logger, args=(k + 1,)) for k in range(rng.choice((1, 2, 3)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if rng.random() < 0.3:
            simthreads.time.sleep(rng.choice((0.05, 0.3, 5)))
        seq = {k: list(v) for k, v in logged.items() if k != 99}
        how = rng.choice(("close", "shutdown", "twice"))
        if how == "shutdown":
            h.acquire()
            h.flush()
            h.close()
            h.release()
        else:
            h.close()
        if size == 0 or not chatty:
            for k, v in seq.items():
                assert [r for r in handled if any(r is x for x in v)] == v, \
                    "not every record is handled once, in order"
        open_[0] = False
        if how == "twice":
            h.close()
        assert len(who) <= 1 and sched.threads[0] not in who, "handled by the wrong thread"
        assert len(handled) == len(set(map(id, handled))), "handled twice"
        assert not sched.errors, sched.errors
        assert all(t.done for t in sched.threads[1:]), "the thread does not end"
        assert h._statistic.threads == 0, "the thread is counted after its end"
    h = None
    raising, known = logging.raiseExceptions, list(logging._handlerList)
    try:
        simthreads.run_plain(rng, main, [mod])
    finally:
        logging.raiseExceptions = raising
        logging._handlerList[:] = known


FUZZ = [("schedules", fuzz)]
FUZZ_S = 6
