"""C15: aiomisc.worker_pool, aiomisc_worker.worker."""
import asyncio
import enum
import hashlib
import hmac
import inspect
import os
import pickle
import socket
from multiprocessing import ProcessError

from pyvc import core
from pyvc.aio import Exc, NS, Ret, Sink, SomeSet, Suspend, WaitFor, close_coro, drive
from pyvc.core import conj
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["AsyncProtocol and SocketIOProtocol are used through their contract (C14): receive gives "
          "an object the other side has sent or fails, send writes a whole packet or fails",
          "asyncio.Queue, Lock, Future, start_server are used through their contracts",
          "threaded functions run once and give their result (C16)",
          "hmac/hashlib compute HMAC-SHA256; the cookie is not guessed",
          "processes and signals: Popen, os.fork, os.wait and os.kill are recorded, not run"]
CONTRACTS = ["WorkerPool.start", "WorkerPool.create_task", "WorkerPool.close",
             "WorkerPool client handler (any number of tasks, any first packet)",
             "WorkerPool.__create_supervisor", "aiomisc_worker.worker.execute",
             "aiomisc_worker.worker.worker", "aiomisc_worker.worker.bad_initializer",
             "aiomisc_worker.forking.main (any number of workers and exits)"]
BOUNDED = {"forking": "two workers, three exits; initializers", "close": "two tasks, one client"}

PID = 10 ** 9 + 7       # no real process
OTHER = 10 ** 9 + 8


class Falsy(Exception):
    def __bool__(self):
        return False


class Loopy(LookupError):
    pass


class Fut:
    def __init__(self, ctx):
        self.ctx, self.state, self.cbs = ctx, None, []

    def done(self):
        return self.state is not None

    def cancelled(self):
        return self.done() and self.state[0] == "cancelled"

    def _set(self, *st):
        if self.state is not None:
            raise asyncio.InvalidStateError("invalid state")
        self.state = st
        for c in self.cbs:
            c(self)
        self.cbs = []

    def set_result(self, v):
        self._set("ret", v)

    def set_exception(self, e):
        if isinstance(e, type):
            e = e()
        if isinstance(e, StopIteration):
            e = RuntimeError("StopIteration")
        if not isinstance(e, BaseException):
            raise TypeError("invalid exception object")
        self._set("exc", e)

    def cancel(self, msg=None):
        if self.done():
            return False
        self._set("cancelled")
        return True

    def add_done_callback(self, cb):
        self.cbs.append(cb)

    def result(self):
        if self.state is None:
            raise asyncio.InvalidStateError("not done")
        if self.state[0] == "exc":
            raise self.state[1]
        if self.state[0] == "cancelled":
            raise asyncio.CancelledError
        return self.state[1]

    def exception(self):
        if self.state[0] == "cancelled":
            raise asyncio.CancelledError
        return self.state[1] if self.state[0] == "exc" else None

    def __await__(self):
        if not self.done():
            yield Suspend("future", self)
        return self.result()


class Task:
    def __init__(self, coro):
        self.coro, self.gone, self.cbs = coro, False, []

    def add_done_callback(self, cb):
        self.cbs.append(cb)

    def cancel(self):
        self.gone = True
        return True

    def done(self):
        return self.gone


class Lock:
    def __init__(self):
        self.held = False

    async def __aenter__(self):
        await Suspend("lock")
        self.held = True

    async def __aexit__(self, *a):
        self.held = False

    def locked(self):
        return self.held


class Server:
    closed = 0

    def close(self):
        self.closed += 1

    async def wait_closed(self):
        await Suspend("wait_closed")


class Proc:
    """a process of the supervisor"""
    pid = OTHER + 1
    returncode = None

    def __init__(self, args=None, stdin=None, env=None, **kw):
        self.args, self.env = args, env
        self.stdin = self
        self.closed = 0
        self.sent = []

    def close(self):
        self.closed += 1

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = -9


class Stat:
    def __init__(self, name=None):
        self.processes = self.spawning = self.queue_size = self.submitted = 0
        self.sum_time = self.done = self.success = self.error = 0
        self.bad_auth = self.task_added = 0


class Kill(Exception):
    pass


class World:
    pass


def is_threaded(v):
    return hasattr(v, "__wrapped__") and hasattr(v, "__code__") and \
        v.__code__.co_filename.endswith("thread_pool.py")


def world(ctx, start=True):
    """a started pool of two workers"""
    mod = load("aiomisc.worker_pool", transform=ctx.sym)
    need(mod, "WorkerPool", "AsyncProtocol", "FileIOProtocol", "Popen", "WorkerPoolStatistic",
         "set_exception", "cancel_tasks", "asyncio", "os", "log")
    need(mod.WorkerPool, "_create_socket", "create_task", "close", "start")
    w = World()
    mod.PacketTypes = enum.Enum("PacketTypes", list(mod.PacketTypes.__members__))
    w.mod, w.kills, w.cb, w.coros, w.procs = mod, [], None, [], []

    class LoopF:
        def create_future(self):
            return Fut(ctx)

        def create_task(self, coro, **kw):
            w.coros.append(coro)
            return Task(coro)

        def time(self):
            return 0.0
    w.loop = LoopF()

    class Queue:
        def __init__(self, maxsize=0):
            w.maxsize = maxsize

        async def put(self, item):
            await Suspend("put", item)

        async def get(self):
            return await Suspend("get")

        def empty(self):
            return bool(ctx.choose(2, "no task is waiting"))

        def full(self):
            return bool(ctx.choose(2, "no room for a task"))

        def qsize(self):
            return ctx.int("tasks waiting", 0)

    async def start_server(cb, *a, **kw):
        await Suspend("start_server")
        w.cb = cb
        w.server = Server()
        return w.server

    async def gather(*aws, return_exceptions=False):
        res = []
        for a in aws:
            try:
                res.append(await a)
            except Exception as e:
                if not return_exceptions:
                    raise
                res.append(e)
        return res

    def popen(*a, **kw):
        p = Proc(*a, **kw)
        w.procs.append(p)
        return p

    class Pipe:
        def __init__(self, fd):
            self.fd = fd

        def send(self, payload):
            ctx.check(not self.fd.closed, "the supervisor is told before its input is closed")
            self.fd.sent.append(payload)

    def pending(fs):
        return [f for f in fs if not f.done()]

    def set_exception(futures, exc=asyncio.CancelledError()):
        res = set()
        for f in pending(futures):
            if isinstance(f, Task):
                f.cancel()
                res.add(f)
            else:
                f.set_exception(exc)
        return res

    def cancel_tasks(tasks):
        set_exception(tasks)

        async def done():
            await Suspend("cancelled tasks")
        return done()

    mod.asyncio = NS(asyncio, start_server=start_server, Queue=Queue, Lock=Lock,
                     get_running_loop=lambda: w.loop, get_event_loop=lambda: w.loop,
                     gather=gather, wait_for=lambda aw, timeout=None: aw)
    mod.os = NS(os, kill=lambda pid, sig: w.kills.append((pid, sig)), environ=os.environ)
    mod.chmod = lambda *a: None
    mod.Popen = popen
    mod.FileIOProtocol = Pipe
    mod.WorkerPoolStatistic = Stat
    mod.set_exception, mod.cancel_tasks = set_exception, cancel_tasks
    mod.log = type("Log", (Sink,), {"getEffectiveLevel": lambda self: 10})()
    body = {"__del__": lambda self: None}
    for n, v in vars(mod.WorkerPool).items():
        if is_threaded(v):
            def direct(self, *a, _f=v.__wrapped__, **kw):
                async def run():
                    await Suspend("thread")
                    return _f(self, *a, **kw)
                return run()
            body[n] = direct

    def _create_socket(self):
        self.socket, self.address = object(), "addr"
    body["_create_socket"] = _create_socket
    w.P = type("P", (mod.WorkerPool,), body)
    w.init = (object(), (1, 2), {"a": 3})
    w.maxover = ctx.pick((0, 3), "overflow")
    w.make = lambda: w.P(2, w.maxover, initializer=w.init[0], initializer_args=w.init[1],
                         initializer_kwargs=w.init[2])
    w.pool = w.make()
    if start:
        begin(ctx, w)
    return w


def begin(ctx, w):
    st, v = drive(w.pool.start(), lambda q: Ret(None))
    ctx.check(st == "ret", "start does not fail", v)
    ctx.check(len(w.procs) == 1 and w.cb is not None, "one supervisor, the server listens")
    sent = w.procs[0].sent
    ctx.check(len(sent) == 5, "the supervisor is told everything")
    w.cookie, w.ids = sent[2], tuple(sent[3])
    ctx.check(sent[1] == "addr", "the supervisor is told the address")
    ctx.check(isinstance(w.cookie, bytes) and len(w.cookie) >= 64, "the cookie is random bytes")
    ctx.check(len(set(w.ids)) == 2 and w.ids == tuple(w.pool.worker_ids),
              "every worker has its own id")
    ctx.check(tuple(sent[4]) == w.init, "the supervisor is told the initializer")
    ctx.check(w.maxsize == w.maxover, "the queue is bounded by max_overflow")


def digest(cookie, wid):
    return hmac.HMAC(cookie, wid, digestmod=hashlib.sha256).digest()


class Item:
    """a task given by the real create_task"""

    def __init__(self, ctx, w):
        self.func, self.args, self.kw = object(), (object(), ), {"k": object()}
        self.coro = w.pool.create_task(self.func, *self.args, **self.kw)
        q = self.coro.send(None)
        ctx.check(isinstance(q, Suspend) and q.kind == "put", "a task is put to the queue")
        self.raw = q.args[0]
        self.wait = None
        self.outcome = None
        try:
            self.wait = self.coro.send(None)
        except StopIteration:
            ctx.fail("create_task waits for the worker")
        ctx.check(isinstance(self.wait, Suspend) and self.wait.kind == "future",
                  "create_task waits for the worker")
        self.taken = False

    def progress(self, ctx, pid):
        """the caller goes on once a worker has taken the task"""
        if self.taken or self.outcome is not None or not self.wait.args[0].done():
            return
        self.taken = True
        try:
            q = self.coro.send(None)
        except StopIteration as e:
            ctx.fail("create_task waits for the outcome", e)
        ctx.check(isinstance(q, Suspend) and q.kind == "future",
                  "create_task waits for the outcome")
        self.wait = q

    def cancel(self, ctx, w):
        """the caller is cancelled"""
        f = self.wait.args[0]
        was = f.done()
        f.cancel()
        n = len(w.kills)
        try:
            if was:
                self.coro.throw(asyncio.CancelledError())
            else:
                self.coro.throw(asyncio.CancelledError())
            ctx.fail("a cancelled caller is cancelled")
        except StopIteration:
            ctx.fail("a cancelled caller is cancelled")
        except asyncio.CancelledError:
            pass
        self.outcome = ("cancelled",)
        k = w.kills[n:]
        if self.taken:
            ctx.check(k == [(PID, w.mod.SIGNAL)], "the worker running the task is interrupted", k)
        else:
            ctx.check(k == [], "no other worker is interrupted", k)

    def finish(self, ctx):
        """-> how create_task ends, None when it would wait for ever"""
        while self.outcome is None:
            f = self.wait.args[0]
            if not f.done():
                return None
            try:
                self.wait = self.coro.send(None)
            except StopIteration as e:
                self.outcome = ("ret", e.value)
            except asyncio.CancelledError:
                self.outcome = ("cancelled",)
            except (core.PathEnd, core.Unsupported):
                raise
            except BaseException as e:
                self.outcome = ("exc", e)
        return self.outcome


def proto_of(ctx, G):
    class Writer:
        def close(self):
            G.closed += 1

        def is_closing(self):
            return bool(G.closed)

        async def wait_closed(self):
            await Suspend("wait_closed")

        def write_eof(self):
            pass

        def can_write_eof(self):
            return False

        def get_extra_info(self, *a):
            return None

    class Reader:
        def at_eof(self):
            if not ctx.sym and G.n > 4:
                return True
            return G.eof or bool(ctx.choose(2, "eof"))

    class Proto:
        def __init__(self, reader, writer):
            ctx.check(reader is G.reader and writer is G.writer, "the protocol of this connection")
            self.reader, self.writer = reader, writer

        async def send(self, payload):
            return await Suspend("send", payload)

        async def receive(self):
            return await Suspend("receive")

        def close(self):
            G.closed += 1
    G.writer, G.reader = Writer(), Reader()
    return Proto


HELLO = ("good", "good second", "bad digest", "other's digest", "unknown id", "wrong type",
         "ok type", "init", "init bad", "init other", "not a tuple", "short", "None digest",
         "empty digest", "prefix", "text digest", "eof", "reset", "unpickle", "cancel")
GOOD = ("good", "good second")


def client(ctx):
    w = world(ctx)
    mod, P = w.mod, w.mod.PacketTypes

    class G:
        phase, item, closed, eof, n = "hello", None, 0, False, 0
        requested = answered = over = False
        ok = expect = None
        pool_closed = kills = 0
    mod.AsyncProtocol = proto_of(ctx, G)
    need(w.pool, "pids", "_statistic")
    w.pool.pids.add(OTHER)
    w.pool._statistic.processes = 1
    bystander = Item(ctx, w)     # somebody waits for a task which is still in the queue
    running = Item(ctx, w)       # a task of another worker
    running.raw[4].set_result(PID)
    running.progress(ctx, PID)

    async def close():
        await Suspend("close")
    w.pool.close = close
    closing = ctx.choose(2, "closing") == 1

    hello = ctx.pick(HELLO, "first packet")
    wid = w.ids[1 if hello == "good second" else 0]
    dg = digest(w.cookie, wid)

    def first():
        if hello in GOOD:
            return Ret((P.AUTH, wid, dg, PID))
        if hello == "bad digest":
            return Ret((P.AUTH, wid, b"\0" * 32, PID))
        if hello == "other's digest":
            return Ret((P.AUTH, wid, digest(w.cookie, w.ids[1]), PID))
        if hello == "unknown id":
            u = b"x" * 16
            return Ret((P.AUTH, u, digest(w.cookie, u), PID))
        if hello == "wrong type":
            return Ret((P.REQUEST, wid, dg, PID))
        if hello == "ok type":
            return Ret((P.AUTH_OK, wid, dg, PID))
        if hello == "init":
            return Ret((P.BAD_INITIALIZER, wid, dg, PID))
        if hello == "init bad":
            return Ret((P.BAD_INITIALIZER, wid, b"\1" * 32, PID))
        if hello == "init other":
            u = b"x" * 16
            return Ret((P.BAD_INITIALIZER, u, digest(w.cookie, u), PID))
        if hello == "not a tuple":
            return Ret(5)
        if hello == "short":
            return Ret((P.AUTH, wid, dg))
        if hello == "None digest":
            return Ret((P.AUTH, wid, None, PID))
        if hello == "empty digest":
            return Ret((P.AUTH, wid, b"", PID))
        if hello == "prefix":
            return Ret((P.AUTH, wid, dg[:16], PID))
        if hello == "text digest":
            return Ret((P.AUTH, wid, dg.hex(), PID))
        if hello == "eof":
            return Exc(asyncio.IncompleteReadError(b"", 4))
        if hello == "reset":
            return Exc(ConnectionResetError())
        if hello == "unpickle":
            return Exc(pickle.UnpicklingError())
        return Exc(asyncio.CancelledError())

    def untouched():
        ctx.check(w.pool.pids - {PID} == {OTHER}, "other workers are not touched")
        if G.pool_closed or hello == "init":
            return
        ctx.check(bystander.finish(ctx) is None, "the tasks of the pool are not touched")
        ctx.check(running.finish(ctx) is None, "the tasks of other workers are not touched")
        ctx.check(len(w.kills) <= G.kills + (G.item is not None), "no signal is sent")

    def settled():
        it, e = G.item, G.expect
        if it is None:
            return
        got = it.finish(ctx)
        G.item, G.kills = None, len(w.kills)
        if it.outcome == ("cancelled",) and e is None and not G.requested:
            ctx.cover("skipped")
            return
        if e == "cancelled":
            return
        if it.was_cancelled:
            ctx.cover("cancelled while running")
            return
        ctx.check(got is not None, "a taken task is settled before the next one")
        if e[0] == "ret":
            ctx.check(got[0] == "ret" and got[1] is e[1], "the worker's result is the result")
            ctx.cover("result")
        elif e[0] == "exc":
            if isinstance(e[1], StopIteration):
                ctx.check(got[0] == "exc", "the worker's exception is raised")
            elif e[1] is asyncio.CancelledError:
                ctx.check(got[0] == "cancelled", "a task interrupted in the worker is cancelled")
            else:
                ctx.check(got[0] == "exc" and got[1] is e[1], "the worker's exception is raised", got)
                ctx.cover("exception")
        else:
            ctx.check(got[0] == "exc" and not isinstance(got[1], asyncio.InvalidStateError),
                      "a task without an outcome fails", got)
            if e[1] == "broken":
                ctx.check(isinstance(got[1], ProcessError), "a broken connection is a ProcessError")
                ctx.cover("broken")

    def meanwhile():
        """the caller of the task"""
        it = G.item
        if it is None:
            return
        it.progress(ctx, PID)
        if not it.was_cancelled and ctx.choose(2, "caller cancelled"):
            it.cancel(ctx, w)
            it.was_cancelled = True

    def handler(q):
        untouched()
        if q.kind == "lock":
            if closing:
                # the pool has been closed meanwhile
                if not G.pool_closed:
                    shut(ctx, w)
                    G.pool_closed += 1
            return Ret(None)
        if q.kind == "close":
            ctx.check(hello == "init", "only a broken initializer of an own worker closes the pool")
            G.pool_closed += 1
            return Ret(None)
        if q.kind == "receive" and G.phase == "hello":
            G.phase = "second"
            r = first()
            if hello == "cancel":
                G.over = True
            return r
        if q.kind == "receive" and G.phase == "second":
            ctx.check(hello == "init" and not closing, "nothing else is read without authentication")
            G.phase = "end"
            k = ctx.pick(("exc", "other", "eof"), "initializer")
            if k == "exc":
                G.init_exc = Loopy()
                return Ret((P.EXCEPTION, G.init_exc))
            return Ret((P.RESULT, 1)) if k == "other" else Exc(asyncio.IncompleteReadError(b"", 4))
        if q.kind == "send" and G.phase != "serve":
            x = q.args[0]
            if x == P.AUTH_OK:
                ctx.check(hello in GOOD, "only a worker with the cookie is authenticated", hello)
                ctx.check(not closing, "a closed pool takes no workers")
                ctx.check(G.phase == "second", "one answer to the authentication")
                G.phase = "serve"
                k = ctx.choose(2, "auth ok lost")
                if k == 1:
                    G.over = True
                    return Exc(ConnectionResetError())
                return Ret(None)
            ctx.check(hello not in GOOD, "a worker with the cookie is authenticated")
            ctx.check(not isinstance(x, tuple), "nothing is sent without authentication")
            return Ret(None)
        if q.kind == "get":
            ctx.check(G.phase == "serve", "only an authenticated worker gets tasks", hello)
            ctx.check(not G.over, "no task is taken from the queue for a dead worker")
            settled()
            ctx.check(PID in w.pool.pids and w.pool._statistic.processes == 2,
                      "a serving worker is counted")
            G.n += 1
            if ctx.choose(8, "cancelled") == 7:
                G.over = True
                return Exc(asyncio.CancelledError())
            it = Item(ctx, w)
            it.was_cancelled = False
            G.item, G.requested, G.answered, G.expect = it, False, False, None
            if ctx.choose(2, "cancelled in the queue"):
                it.cancel(ctx, w)
                it.was_cancelled = True
            return Ret(it.raw)
        if q.kind == "send":
            x, it = q.args[0], G.item
            ctx.check(it is not None and not G.requested, "a task is sent once")
            ctx.check(not it.was_cancelled, "a cancelled task is never sent")
            ctx.check(isinstance(x, tuple) and len(x) == 4 and x[0] is P.REQUEST
                      and x[1] is it.func and tuple(x[2]) == it.args and x[3] == it.kw,
                      "the task which was taken is sent")
            G.requested = True
            meanwhile()
            ctx.check(it.taken or it.was_cancelled, "the caller knows the worker of its task")
            k = ctx.pick(("ok", "ok", "reset", "pickle", "falsy", "cancel"), "request")
            if k == "ok":
                return Ret(None)
            if k == "cancel":
                G.expect, G.over = "cancelled", True
                return Exc(asyncio.CancelledError())
            if k == "reset":
                G.expect, G.over = ("fail", "broken"), True
                return Exc(BrokenPipeError())
            G.expect = ("fail", "pickle")
            G.answered = True
            return Exc(pickle.PicklingError() if k == "pickle" else Falsy())
        if q.kind == "receive":
            it = G.item
            ctx.check(G.phase == "serve" and it is not None and G.requested and not G.answered,
                      "one response per request is read")
            G.answered = True
            meanwhile()
            k = ctx.pick(("result", "falsy result", "exc", "falsy", "stop", "cancelled", "unknown",
                          "eof", "reset", "unpickle", "cancel"), "response")
            if k == "result":
                G.expect = ("ret", object())
                return Ret((P.RESULT, G.expect[1]))
            if k == "falsy result":
                G.expect = ("ret", None)
                return Ret((P.RESULT, None))
            if k in ("exc", "falsy", "stop"):
                G.expect = ("exc", {"exc": Loopy("x"), "falsy": Falsy(),
                                    "stop": StopIteration(1)}[k])
                return Ret((P.EXCEPTION, G.expect[1]))
            if k == "cancelled":
                G.expect = ("exc", asyncio.CancelledError)
                return Ret((P.CANCELLED, asyncio.CancelledError))
            if k == "cancel":
                G.expect, G.over = "cancelled", True
                return Exc(asyncio.CancelledError())
            if k == "unknown":
                G.expect = ("fail", "unknown")
                return Ret((P.AUTH, 1))
            if k == "unpickle":
                G.expect = ("fail", "unpickle")
                return Exc(ctx.pick((pickle.UnpicklingError("x"), AttributeError("x"), Falsy()),
                                    "unpickle"))
            G.expect, G.over = ("fail", "broken"), True
            return Exc(asyncio.IncompleteReadError(b"", 4) if k == "eof"
                       else ConnectionResetError())
        if q.kind == "wait_closed":
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))

    def havoc(c):
        G.item = None
        G.expect = None
        G.requested = G.answered = False

    def inv(c):
        if G.item is not None:
            settled()
        return [(not G.over, "a handler ends with its connection"),
                (PID in w.pool.pids, "a serving worker is counted"),
                (w.pool._statistic.processes == 2, "a serving worker is counted")]

    ctx.loops = {("while",): Cut(havoc, inv, obj=lambda c, n, v: v)}
    t = w.cb(G.reader, G.writer)
    ctx.check(len(w.coros) == 1 and (t is None or isinstance(t, Task)), "one handler per connection")
    st, v = drive(w.coros[0], handler)
    settled()
    untouched()
    ctx.check(G.closed >= 1, "the connection is closed")
    ctx.check(w.pool.pids == {OTHER} and w.pool._statistic.processes == 1,
              "a worker which is gone is not counted")
    if hello in GOOD and not closing:
        ctx.check(G.phase == "serve", "a worker with the cookie is authenticated")
        if not G.over and not isinstance(v, asyncio.CancelledError):
            ctx.check(st == "ret", "a handler ends with its connection", v)
    else:
        ctx.check(G.phase != "serve", "only an authenticated worker gets tasks")
        ctx.cover("rejected")
        if hello == "init" and not closing:
            ctx.check(G.pool_closed == 1 or isinstance(v, asyncio.IncompleteReadError),
                      "a broken initializer closes the pool")
            if hasattr(G, "init_exc"):
                ctx.check(bystander.finish(ctx) == ("exc", G.init_exc),
                          "a broken initializer fails the tasks")
        ctx.check(G.pool_closed == (1 if closing and hello not in (
            "eof", "reset", "unpickle", "cancel", "not a tuple", "short") else
            (G.pool_closed if hello == "init" or closing else 0)),
            "a stranger does not close the pool")
    close_coro(bystander.coro)
    close_coro(running.coro)


def shut(ctx, w):
    """drive the real close()"""
    c = getattr(type(w.pool).close, "__wrapped__", None)
    if c is None or not inspect.iscoroutinefunction(c):
        raise core.Unsupported("close is not a shielded coroutine")
    return drive(c(w.pool), lambda q: Ret(None))


def close(ctx):
    w = world(ctx)
    items = [Item(ctx, w) for _ in range(ctx.choose(3, "tasks"))]
    for i, it in enumerate(items):
        if ctx.choose(2, "taken"):
            it.raw[4].set_result(PID)
            it.progress(ctx, PID)
    handlers = []
    for _ in range(ctx.choose(2, "clients")):
        handlers.append(w.cb(object(), object()))
    alive = ctx.choose(2, "supervisor alive")
    if not alive:
        w.procs[0].returncode = 0
    st, v = shut(ctx, w)
    ctx.check(st == "ret", "close does not fail", v)
    ctx.check(w.server.closed == 1, "a closed pool does not listen")
    sup = [k for k in w.kills if k[0] == Proc.pid]
    ctx.check(sup == ([(Proc.pid, w.mod.INT_SIGNAL)] if alive else []),
              "the supervisor is interrupted")
    for h in handlers:
        if isinstance(h, Task):
            ctx.check(h.gone, "the handlers are cancelled")
    for it in items:
        ctx.check(it.finish(ctx) is not None, "a closed pool leaves nobody waiting")
        ctx.check(it.outcome[0] != "ret", "a closed pool invents no result")
    n = len(w.kills)
    st, v = shut(ctx, w)
    ctx.check(st == "ret" and len(w.kills) == n and w.server.closed == 1, "closing again does nothing")
    ctx.cover("closed")
    for c in w.coros:
        close_coro(c)


def close_any(ctx):
    """any number of tasks and connections: they are kept from their creation
    to their end, and close cancels everything which is kept"""
    w = world(ctx, start=False)
    mod = w.mod
    made = []

    def aset(x=()):
        if isinstance(x, SomeSet):
            return x.copy()
        if not isinstance(x, (tuple, list)) or x:
            return set(x)
        made.append(SomeSet(ctx))
        return made[-1]
    mod.set = mod.frozenset = aset
    w.pool = w.make()
    mod.set = mod.frozenset = lambda x=(): x.copy() if isinstance(x, SomeSet) else set(x)
    begin(ctx, w)
    cancelled = []

    def whole(x):
        if not isinstance(x, SomeSet):
            return False
        if not x.part:
            cancelled.append(x.of)
        return True

    def cancel_tasks(tasks):
        ctx.check(w.server.closed == 1, "a closed pool does not listen")
        if not whole(tasks):
            list(tasks)

        async def done():
            await Suspend("cancelled tasks")
        return done()

    def set_exception(futures, exc=asyncio.CancelledError()):
        if not whole(futures):
            list(futures)
        return set()
    mod.cancel_tasks, mod.set_exception = cancel_tasks, set_exception
    for m in made:
        ctx.check(not m.added and not m.removed, "nothing is kept yet")
    it = Item(ctx, w)
    kept = [m for m in made if any(x is it.raw[3] for x in m.added)]
    ctx.check(bool(kept) and all(any(x is it.raw[4] for x in m.added) for m in kept) and
              not any(m.removed for m in made), "the futures of a task are kept")
    n = [len(m.added) for m in made]
    h = w.cb(object(), object())
    conns = [m for m, k in zip(made, n) if any(x is h for x in m.added[k:])]
    ctx.check(bool(conns) and not any(m.removed for m in made), "the handler of a connection is kept")
    mine = [it.raw[3], it.raw[4], h]
    k = ctx.pick((None, 0, 1, 2), "ends")
    if k is not None:
        x = mine[k]
        if k == 2:
            x.gone = True
            for cb in x.cbs:
                cb(x)
        else:
            x.set_result(PID)
    ctx.check(all(x is mine[k] for m in made for x in m.removed) if k is not None else
              not any(m.removed for m in made), "others are kept")
    st, v = shut(ctx, w)
    ctx.check(st == "ret", "close does not fail", v)
    ctx.check(w.server.closed == 1, "a closed pool does not listen")
    ctx.check(any(m is c for m in kept for c in cancelled), "a closed pool leaves nobody waiting")
    ctx.check(any(m is c for m in conns for c in cancelled), "the handlers are cancelled")
    ctx.cover("closed")
    it.coro.close()
    for c in w.coros:
        close_coro(c)


def caller(ctx):
    """create_task: exactly the outcome of its own task"""
    w = world(ctx)

    class G:
        put = []
        stage = 0
        out = None
    f, a, k = object(), (1, object()), {"x": object()}

    def handler(q):
        if q.kind == "put":
            ctx.check(not G.put, "a task is put to the queue once")
            if ctx.choose(2, "full queue cancelled"):
                G.out = "cancelled"
                return Exc(asyncio.CancelledError())
            it = q.args[0]
            ctx.check(it[0] is f and tuple(it[1]) == a and it[2] == k, "the task is the call")
            G.put.append(it)
            return Ret(None)
        if q.kind == "future":
            fut = q.args[0]
            how = ctx.pick(("set", "cancel", "cancelled"), "future")
            if how == "cancel":     # the caller is cancelled: cancels the future it waits for
                fut.cancel()
                G.out = "cancelled"
                return Exc(asyncio.CancelledError())
            if how == "cancelled":  # the pool is closed
                fut.set_exception(asyncio.CancelledError())
                G.out = "cancelled"
                return Ret(None)
            if fut is G.put[0][4]:
                ctx.check(G.stage == 0, "first the worker, then the outcome")
                G.stage = 1
                fut.set_result(PID)
            else:
                ctx.check(fut is G.put[0][3] and G.stage == 1, "first the worker, then the outcome")
                G.stage = 2
                G.val = ctx.pick((object(), None, Falsy(), ConnectionResetError()), "outcome")
                if isinstance(G.val, Exception):
                    fut.set_exception(G.val)
                else:
                    fut.set_result(G.val)
            return Ret(None)
        raise core.Unsupported("await %r" % (q,))
    st, v = drive(w.pool.create_task(f, *a, **k), handler)
    if G.out == "cancelled":
        ctx.check(st == "exc" and isinstance(v, asyncio.CancelledError), "a cancelled caller is cancelled")
        ctx.check(len(w.kills) == (1 if G.stage == 1 else 0)
                  and all(k == (PID, w.mod.SIGNAL) for k in w.kills),
                  "the worker running the task is interrupted")
        if G.put:
            ctx.check(G.put[0][3].done() or G.put[0][4].done(), "a cancelled task is marked")
    else:
        ctx.check(G.stage == 2, "first the worker, then the outcome")
        if isinstance(G.val, Exception):
            ctx.check(st == "exc" and v is G.val, "the caller gets the exception")
        else:
            ctx.check(st == "ret" and v is G.val, "the caller gets the result")
        ctx.check(not w.kills, "no signal is sent")
        ctx.cover("outcome")


def execute(ctx):
    mod = load("aiomisc_worker.worker", transform=ctx.sym)
    need(mod, "execute", "worker", "bad_initializer", "PacketTypes", "SocketIOProtocol")
    P = mod.PacketTypes
    mod.os = NS(os, getpid=lambda: PID)
    mod.logging = Sink()

    class G:
        calls, sent, broken, lost = 0, [], False, False
    a, k = (1, object()), {"x": object()}
    how = ctx.pick(("ret", "none", "exc", "falsy", "conn", "refused", "signal"), "call")
    val = {"ret": object(), "none": None, "exc": Loopy("x"), "falsy": Falsy(),
           "conn": ConnectionError("x"), "refused": ConnectionRefusedError("x"),
           "signal": asyncio.CancelledError()}[how]

    def func(*aa, **kk):
        G.calls += 1
        ctx.check(aa == a and kk == k, "the function is called with its arguments")
        ctx.check(not G.sent, "the function is called before the answer")
        if isinstance(val, BaseException):
            raise val
        return val

    class Proto:
        def receive(self):
            ctx.check(not G.calls and not G.sent, "one request is read")
            x = ctx.pick(("ok", "broken", "unpickle"), "request")
            if x == "ok":
                return (P.REQUEST, func, a, k)
            G.broken = True
            raise ConnectionError("x") if x == "broken" else AttributeError("x")

        def send(self, payload):
            ctx.check(G.calls == 1, "one answer to one call")
            ctx.check(len([s for s in G.sent if s[1] == "ok"]) == 0, "a request is answered once")
            ctx.check(not G.lost, "nothing is sent to a broken connection")
            st = ctx.pick(("ok", "broken", "pickle"), "send")
            if st == "pickle" and G.sent:
                st = "ok"      # the error itself can be pickled
            G.sent.append((payload, st))
            if st == "broken":
                G.lost = True
                raise BrokenPipeError()
            if st == "pickle":
                G.err = TypeError("cannot pickle")
                raise G.err
    try:
        mod.execute(Proto())
        st = "ret"
    except (core.PathEnd, core.Discard, core.Unsupported):
        raise
    except BaseException as e:
        st = e
    if G.broken:
        ctx.check(st != "ret" and not G.sent and not G.calls, "a broken request is not answered")
        return
    ctx.check(G.calls == 1, "a request is executed once")
    ctx.check(len(G.sent) >= 1, "a request is answered")
    p = G.sent[0][0]
    if how in ("ret", "none"):
        ctx.check(p[0] is P.RESULT and p[1] is val, "the answer is the result")
    elif how == "signal":
        ctx.check(p[0] is P.CANCELLED, "an interrupted call is cancelled")
    else:
        ctx.check(p[0] is P.EXCEPTION and p[1] is val, "the answer is the exception", p)
    if G.lost:
        ctx.check(isinstance(st, ConnectionError), "a worker ends with its connection")
    elif how not in ("ret", "none") and G.sent[0][1] == "pickle":
        return      # the exception itself cannot be sent: the worker is replaced
    else:
        ctx.check(st == "ret", "a worker goes on after a failed task", st)
        ctx.check(G.sent[-1][1] == "ok", "a request is answered")
        if G.sent[0][1] == "pickle":
            p = G.sent[-1][0]
            ctx.check(p[0] is P.EXCEPTION and p[1] is G.err, "an unpicklable result is an exception")
    ctx.cover("executed")


class FSock:
    def __init__(self, *a):
        pass

    def connect(self, addr):
        self.addr = addr

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def connect(ctx):
    """worker() and bad_initializer(): what the pool accepts"""
    mod = load("aiomisc_worker.worker", transform=ctx.sym)
    need(mod, "execute", "worker", "bad_initializer", "PacketTypes", "SocketIOProtocol")
    import sys
    P = mod.PacketTypes
    mod.os = NS(os, getpid=lambda: PID)
    mod.logging = Sink()
    mod.sys = NS(sys)
    mod.socket = NS(socket, socket=FSock)
    cookie, wid = b"c" * 128, b"i" * 16

    class G:
        sent, execs, end = [], 0, None

    class Proto:
        def __init__(self, sock):
            ctx.check(sock.addr == "addr", "the worker connects to its pool")

        def send(self, x):
            ctx.check(len(G.sent) < 2, "the hello is sent once")
            G.sent.append(x)

        def receive(self):
            ctx.check(len(G.sent) == 1, "the worker is known before it reads")
            G.answer = ctx.pick((P.AUTH_OK, P.AUTH_FAIL, P.BAD_PACKET, None, "broken"), "answer")
            if G.answer == "broken":
                raise ConnectionError
            return G.answer

    def execute(proto):
        ctx.check(G.answer == P.AUTH_OK, "a worker executes only for its pool")
        ctx.check(G.end is None, "a worker ends with its connection")
        G.execs += 1
        if (not ctx.sym and G.execs >= 3) or ctx.choose(2, "end"):
            G.end = ctx.pick((ConnectionResetError(), RuntimeError()), "end")
            raise G.end
    mod.execute = execute
    mod.SocketIOProtocol = Proto

    def havoc(c):
        G.execs = c.int("tasks so far", 0)
    ctx.loops = {("while",): Cut(havoc, lambda c: [
        (G.end is None, "a worker ends with its connection"), (len(G.sent) == 1, "the hello is sent once")])}
    hook = sys.excepthook
    try:
        which = ctx.choose(2, "initializer")
        exc = Falsy()
        try:
            if which:
                mod.bad_initializer("addr", cookie, wid, exc)
            else:
                mod.worker("addr", cookie, wid)
            st = "ret"
        except (core.PathEnd, core.Unsupported, core.Discard):
            raise
        except BaseException as e:
            st = e
    finally:
        sys.excepthook = hook
    h = G.sent[0]
    ctx.check(tuple(h)[1:] == (wid, digest(cookie, wid), PID), "the hello proves the cookie")
    if which:
        ctx.check(h[0] is P.BAD_INITIALIZER and len(G.sent) == 2
                  and G.sent[1][0] is P.EXCEPTION and G.sent[1][1] is exc and st == "ret",
                  "a broken initializer is reported")
        return
    ctx.check(h[0] is P.AUTH and len(G.sent) == 1, "a worker says hello")
    if G.answer == P.AUTH_OK:
        ctx.check(G.execs >= 1, "an accepted worker executes")
        ctx.check(st == "ret" if isinstance(G.end, ConnectionError) else st is G.end,
                  "a worker ends with its connection")
    else:
        ctx.check(G.execs == 0, "a worker executes only for its pool")
    ctx.cover("hello")


def forking(ctx):
    mod = load("aiomisc_worker.forking", transform=False, fresh=True)
    need(mod, "main", "FileIOProtocol", "worker", "bad_initializer", "signal", "atexit", "os",
         "STOPPING", "PROCESSES", "sys")
    import sys
    import signal
    import atexit

    class G:
        forks, waits, initialised = [], 0, 0
    ids = (b"a", b"b")
    cfg = ["level", "format"], "addr", "cookie", ids

    class Child(BaseException):
        pass

    def init(*a, **k):
        ctx.check(a == (1,) and k == {"y": 2}, "the initializer gets its arguments")
        G.initialised += 1
        if G.bad:
            raise G.bad

    class Pipe:
        n = 0

        def __init__(self, fd):
            pass

        def receive(self):
            Pipe.n += 1
            return (cfg + ((init if G.has else None, (1,), {"y": 2}),))[Pipe.n - 1]
    G.has = ctx.choose(2, "initializer")
    G.bad = ctx.pick((None, Falsy(), SystemExit(3)), "initializer fails") if G.has else None
    live = {}
    child = ctx.choose(4, "child")

    def fork():
        ctx.check(G.initialised == (1 if G.has else 0), "the initializer runs once before workers")
        G.forks.append(len(G.forks))
        if len(G.forks) == child:
            G.inchild = True
            return 0
        return PID + len(G.forks)

    def wait():
        G.waits += 1
        pids = [p for p in mod.PROCESSES]
        if G.waits > 3 or not pids:
            raise KeyboardInterrupt
        p = pids[ctx.choose(len(pids), "who")]
        s = ctx.pick((0, 9, 256), "status")
        G.gone = (mod.PROCESSES[p], s)
        G.expect = sorted(mod.PROCESSES.values()) if s else None
        if s:
            G.check = True
        return p, s

    class Out(Exception):
        pass

    def worker(addr, cookie, wid):
        ctx.check(getattr(G, "inchild", False), "workers run in their own process")
        ctx.check(addr == "addr" and cookie == "cookie", "a worker gets address and cookie")
        G.ran = wid

    def bad_initializer(addr, cookie, wid, e):
        ctx.check(e is G.bad and wid in ids and cookie == "cookie", "the failure is reported")
        G.reported = True
    mod.os = NS(os, fork=fork, wait=wait, kill=lambda *a: None)
    mod.signal = NS(signal, signal=lambda *a: None, getsignal=lambda *a: None)
    mod.atexit = NS(atexit, register=lambda *a: None, unregister=lambda *a: None)

    class Stdin:
        buffer = None

        def close(self):
            pass
    mod.sys = NS(sys, stdin=Stdin(), platform=sys.platform)
    mod.FileIOProtocol = Pipe
    mod.basic_config = lambda **k: None
    mod.log = Sink()
    mod.worker, mod.bad_initializer = worker, bad_initializer

    def leave(code=None):
        raise SystemExit(code)
    mod.exit = leave
    mod.gc = Sink()
    try:
        mod.main()
        st = None
    except SystemExit as e:
        st = e.code
    if G.bad:
        ctx.check(getattr(G, "reported", False) and not G.forks, "a failing initializer is reported")
        return
    if getattr(G, "inchild", False):
        ctx.check(hasattr(G, "ran"), "a child is a worker")
        ctx.check(st == 0 and not mod.PROCESSES, "a child ends with its worker")
        if child <= 2:
            ctx.check(G.ran == ids[child - 1], "every worker has its own id")
        else:
            ctx.check(G.gone[1] != 0 and G.ran == G.gone[0], "a crashed worker is replaced")
            ctx.cover("replaced")
        return
    ctx.check(sorted(set(mod.PROCESSES.values()) | {b"a", b"b"}) == [b"a", b"b"],
              "only the given ids are used")
    ctx.check(len(G.forks) >= 2, "every worker is started")


class Known(core.Abstract):
    """a mapping of processes to ids: what is looked at is decided then"""

    def __init__(self, pick):
        self.__dict__.update(log=[], pick=pick)

    def __setitem__(self, k, v):
        self.log.append(("set", k, v))

    def pop(self, k, *d):
        v = self.pick(k)
        if v is None:
            if not d:
                raise KeyError(k)
            return d[0]
        self.log.append(("pop", k, v))
        return v

    def get(self, k, d=None):
        v = self.pick(k)
        return d if v is None else v

    def __contains__(self, k):
        return self.pick(k) is not None

    def __getitem__(self, k):
        v = self.pick(k)
        if v is None:
            raise KeyError(k)
        return v

    def __delitem__(self, k):
        self.pop(k)


def supervisor(ctx):
    """the supervisor for any number of workers and exits"""
    mod = load("aiomisc_worker.forking", transform=ctx.sym, fresh=not ctx.sym)
    need(mod, "main", "FileIOProtocol", "worker", "bad_initializer", "signal", "atexit", "os",
         "STOPPING", "PROCESSES", "sys")
    import sys
    import signal
    import atexit
    n = ctx.int("workers", 1)
    j = ctx.int("mine", 0)
    ctx.assume(j < n)
    mine = b"mine"

    class G:
        phase, forks, own, n, exit, child, crashed, over = "start", 0, 0, 0, None, False, None, False
    if ctx.sym:
        ids = SymSeq(n, lambda i: mine if bool(i == j) else b"other", "ids", j, lambda: b"other")
    else:
        ids = tuple(mine if i == j else b"other%d" % i for i in range(n))

    class Pipe:
        n = 0

        def __init__(self, fd):
            pass

        def receive(self):
            Pipe.n += 1
            return (["level", "format"], "addr", "cookie", ids, (None, (), {}))[Pipe.n - 1]

    class Child(BaseException):
        pass

    def fork():
        if G.phase == "start":
            G.phase = "starting"
        G.forks += 1
        if ctx.choose(2, "child"):
            G.child = True
            return 0
        return PID + 1

    def pick(pid):
        ctx.check(G.exit is not None and pid == G.exit[0], "only the worker that ended is replaced")
        if len(G.exit) < 3:
            G.exit += (ctx.pick((mine, b"other", None), "id of the worker"),)
        return G.exit[2]
    known = Known(pick)
    mod.PROCESSES = known

    def judge():
        """the exit seen last was handled"""
        if G.exit is None:
            return True
        pid, status = G.exit[:2]
        wid = G.exit[2] if len(G.exit) == 3 else None
        if status == 0 or wid is None:
            return G.forks == G.n and [x for x in known.log if x[0] == "set"] == []
        return G.forks == G.n + 1 and known.log == [("pop", pid, wid), ("set", PID + 1, wid)]

    def wait():
        G.phase = "waiting"
        ctx.check(conj(G.n + 0 <= G.forks, judge()), "a crashed worker is replaced")
        if (not ctx.sym and G.n > n + 5) or ctx.choose(3, "interrupted") == 2:
            G.over = True
            raise KeyboardInterrupt
        del known.log[:]
        G.n = G.forks
        G.exit = (PID, ctx.pick((0, 9, 256), "status"))
        return G.exit

    def worker(addr, cookie, wid):
        ctx.check(G.child, "workers run in their own process")
        ctx.check(addr == "addr" and cookie == "cookie", "a worker gets address and cookie")
        if G.phase == "starting":
            ctx.check(wid == (mine if bool(G.forks - 1 == j) else wid)
                      and (wid == mine) == bool(G.forks - 1 == j), "every worker has its own id")
        else:
            ctx.check(G.exit[1] != 0 and G.exit[2] == wid, "a crashed worker is replaced")
            ctx.cover("replaced")
        raise Child
    mod.os = NS(os, fork=fork, wait=wait, kill=lambda *a: None)
    mod.signal = NS(signal, signal=lambda *a: None, getsignal=lambda *a: None)
    mod.atexit = NS(atexit, register=lambda *a: None, unregister=lambda *a: None)

    class Stdin:
        buffer = None

        def close(self):
            pass
    mod.sys = NS(sys, stdin=Stdin(), platform=sys.platform)
    mod.FileIOProtocol, mod.worker = Pipe, worker
    mod.basic_config = lambda **k: None
    mod.log = mod.gc = Sink()

    def leave(code=None):
        raise SystemExit(code)
    mod.exit = leave

    def havoc_start(c):
        G.forks = c.int("forked", 0)

    def inv_start(c):
        new = [x for x in known.log if x[0] == "set"]
        del known.log[:]
        return [(G.forks == c.iter_index, "every worker is started once"),
                (all(x[1] == PID + 1 for x in new), "every worker is started once"),
                (not G.child, "a child is a worker")]

    def havoc(c):
        G.forks = G.n = c.int("forked", 0)
        G.exit = None
        del known.log[:]

    def inv(c):
        return [(judge(), "a crashed worker is replaced"), (not G.child, "a child is a worker"),
                (not G.over, "an interrupted supervisor ends")]
    ctx.loops = {("for",): Cut(havoc_start, inv_start), ("while",): Cut(havoc, inv, obj=lambda c, n, v: b"any")}
    try:
        mod.main()
        st = "ret"
    except SystemExit as e:
        st = e.code
    except Child:
        st = "child"
    ctx.check((st == "child") == G.child, "a child is a worker")
    if st != "child":
        ctx.check(st == 0 and G.over, "the supervisor goes on until it is interrupted", st)
        if not ctx.sym:
            ctx.check(G.forks >= n, "every worker is started once")
        ctx.cover("interrupted")


HARNESSES = [("supervisor", supervisor), ("client", client), ("caller", caller), ("close, any number", close_any), ("close", close), ("execute", execute),
             ("connect", connect), ("forking", forking)]


# --- concrete executions of the unmodified modules ---------------------------

def ret(x):
    return x


def boom(k):
    raise {"value": ValueError(k), "falsy": KeyError(), "conn": ConnectionRefusedError("task")}[k]


def unpicklable(x):
    return lambda: x


class OneWay:
    """pickled, but not unpickled"""

    def __reduce__(self):
        return (_fail, ())


def _fail():
    raise LookupError("unpickle")


def oneway(x):
    return OneWay()


def fuzz(rng):
    import importlib
    import io
    import types
    from pyvc import simloop
    wp = importlib.import_module("aiomisc.worker_pool")
    ww = importlib.import_module("aiomisc_worker.worker")
    pr = importlib.import_module("aiomisc_worker.protocol")
    P = wp.PacketTypes
    saved = dict(vars(wp))
    kills, state = [], types.SimpleNamespace(cb=None, proc=None)
    busy = {}       # pid -> the call it runs
    pend = {}       # pid -> an event which ends the call
    ran, outcomes = {}, {}
    died_with = set()

    class Server:
        def close(self):
            pass

        async def wait_closed(self):
            pass

    async def start_server(cb, *a, **kw):
        state.cb = cb
        return Server()

    class P0:
        pid = OTHER + 50

        def __init__(self, *a, **kw):
            self.stdin = io.BytesIO()
            self.stdin.close = lambda: None
            state.proc = self

        def poll(self):
            return None

        def kill(self):
            pass

    class BIO(io.BytesIO):
        def close(self):
            self.data = self.getvalue()

    def popen(*a, **kw):
        p = P0.__new__(P0)
        p.stdin = BIO()
        state.proc = p
        return p

    def kill(pid, sig):
        kills.append((pid, sig))
        ev = pend.get(pid)
        if ev is not None and sig == wp.SIGNAL:
            ev.set()

    ns = types.SimpleNamespace(**vars(asyncio))
    ns.start_server = start_server
    osn = types.SimpleNamespace(**vars(os))
    osn.kill = kill
    body = {"__del__": lambda self: None}
    for n, v in vars(wp.WorkerPool).items():
        if is_threaded(v):
            def direct(self, *a, _f=v.__wrapped__, **kw):
                async def run():
                    return _f(self, *a, **kw)
                return run()
            body[n] = direct

    def _create_socket(self):
        self.socket, self.address = object(), "addr"
    body["_create_socket"] = _create_socket

    class W:
        """one connection, the pool's side of it writes frames here"""

        def __init__(self, loop, pid):
            self.reader = asyncio.StreamReader(loop=loop)
            self.buf, self.closed, self.pid = b"", False, pid
            self.ev = asyncio.Event()
            self.dead = False

        def write(self, data):
            if not self.closed:
                self.buf += bytes(data)
                self.ev.set()

        def writelines(self, xs):
            for x in xs:
                self.write(x)

        async def drain(self):
            if self.dead:
                raise ConnectionResetError("Connection lost")
            await asyncio.sleep(0)

        def close(self):
            self.closed = True
            self.ev.set()

        def is_closing(self):
            return self.closed

        async def wait_closed(self):
            pass

        def get_extra_info(self, *a):
            return None

        async def frame(self):
            n = None
            while True:
                if len(self.buf) >= 4:
                    n = int.from_bytes(self.buf[:4], "big")
                    if len(self.buf) >= 4 + n:
                        b, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
                        return b
                if self.closed:
                    raise ConnectionError
                self.ev.clear()
                await self.ev.wait()

        def feed(self, payload):
            data = payload if isinstance(payload, bytes) else None
            if data is None:
                d = pickle.dumps(payload)
                data = len(d).to_bytes(4, "big") + d
            cut = rng.randrange(len(data) + 1)
            self.reader.feed_data(data[:cut])
            self.reader.feed_data(data[cut:])

    async def delay():
        if rng.random() < 0.7:
            await asyncio.sleep(rng.choice((0, 0.1, rng.random())))

    async def worker(loop, cookie, wid, pid, p_die, hello=None):
        w = W(loop, pid)
        state.cb(w.reader, w)
        await delay()
        w.feed(hello or (P.AUTH, wid, digest(cookie, wid), pid))
        try:
            ok = pickle.loads(await w.frame())
            if ok != P.AUTH_OK:
                return w, "rejected"
            while True:
                raw = await w.frame()
                assert hello is None, "a task for a stranger"
                await delay()
                pk, func, args, kw = pickle.loads(raw)
                ident = kw["ident"]
                busy[pid] = ident
                ev = pend[pid] = asyncio.Event()
                kwr = {k: v for k, v in kw.items() if k != "ident"}
                ran[ident] = ran.get(ident, 0) + 1
                if rng.random() < p_die:
                    died_with.add(ident)
                    w.dead = True
                    if rng.random() < 0.5:
                        w.feed(b"\0\0")
                    w.reader.feed_eof()
                    return w, "died"
                sig = False
                try:
                    await asyncio.wait_for(ev.wait(), rng.choice((0.01, 0.5, 2)))
                    sig = True
                except asyncio.TimeoutError:
                    pass
                out = []

                class FP:
                    def receive(self):
                        def call(*a, **k):
                            if sig:
                                raise asyncio.CancelledError
                            return func(*a, **k)
                        return (pk, call, args, kwr)

                    def send(self, x):
                        d = pickle.dumps(x)
                        out.append(len(d).to_bytes(4, "big") + d)
                ww.execute(FP())
                pend.pop(pid, None)
                busy.pop(pid, None)
                assert len(out) == 1, "one answer to one request"
                w.feed(out[0])
        except ConnectionError:
            w.dead = True
            w.reader.feed_eof()
            return w, "closed"

    async def main(loop):
        over = rng.choice((0, 0, 2))
        n = rng.randint(1, 3)
        pool = cls(n, over)
        await pool.start()
        data = state.proc.stdin.data if hasattr(state.proc.stdin, "data") else \
            state.proc.stdin.getvalue()
        fp = pr.FileIOProtocol(io.BytesIO(data))
        _, _, cookie, ids = [fp.receive() for _ in range(4)]
        assert len(set(ids)) == n
        p_die = rng.choice((0, 0, 0.1, 0.3))
        stop = early = False

        async def supervisor(i, wid):
            pid = PID + 100 * i
            while not stop:
                w, why = await worker(loop, cookie, wid, pid, p_die)
                assert why != "rejected", "an own worker is rejected"
                if why == "closed":
                    return
                pend.pop(pid, None)
                pid += 1
                await delay()
        sups = [loop.create_task(supervisor(i, x)) for i, x in enumerate(ids)]

        async def stranger():
            await delay()
            k = rng.randrange(6)
            pid = OTHER + 1000
            u = os.urandom(16)
            hello = [(P.AUTH, ids[0], os.urandom(32), pid), (P.AUTH, u, digest(cookie, u), pid),
                     (P.REQUEST, ids[0], digest(cookie, ids[0]), pid), 5,
                     (P.BAD_INITIALIZER, ids[0], os.urandom(32), pid),
                     (P.AUTH, ids[0], digest(b"x", ids[0]), pid)][k]
            before = pool._statistic.processes
            w, why = await worker(loop, cookie, b"", pid, 0, hello)
            await asyncio.sleep(1)
            assert w.closed, "a stranger's connection stays open"
            assert pid not in pool.pids, "a stranger is counted"
        strangers = [loop.create_task(stranger()) for _ in range(rng.randint(0, 2))]

        res = {}

        async def call(i):
            await delay()
            if stop:
                return
            k = rng.choice(("ret", "ret", "ret", "value", "falsy", "conn", "unp", "oneway", "args"))
            pre = rng.random() < 0.2
            t = loop.create_task({
                "ret": lambda: pool.create_task(ret, i, ident=i),
                "value": lambda: pool.create_task(boom, "value", ident=i),
                "falsy": lambda: pool.create_task(boom, "falsy", ident=i),
                "conn": lambda: pool.create_task(boom, "conn", ident=i),
                "unp": lambda: pool.create_task(unpicklable, i, ident=i),
                "oneway": lambda: pool.create_task(oneway, i, ident=i),
                "args": lambda: pool.create_task(lambda: i, ident=i)}[k]())
            cancelled = False
            if pre:
                await asyncio.sleep(rng.choice((0, 0.01, 0.3, 1)))
                cancelled = not t.done()
                r0 = ran.get(i, 0)
                nk = len(kills)
                t.cancel()
                await asyncio.wait([t])
                await asyncio.sleep(0)
                res[i] = (k, "cancelled" if cancelled else t, r0, len(kills) - nk)
            else:
                await asyncio.wait([t])
                res[i] = (k, t, None, 0)
        m = rng.randint(1, 8)
        calls = [loop.create_task(call(i)) for i in range(m)]
        early = over == 0 and rng.random() < 0.2
        if early:
            await asyncio.sleep(rng.random() * 2)
            stop = True
            await pool.close()
        await asyncio.wait(calls)
        if not early:
            for t in strangers:
                await t
        await asyncio.sleep(5)
        if not early:
            dead = [t for t in sups if t.done()]
            for t in dead:
                t.result()
            assert not dead, "a live worker is dropped"
            await asyncio.sleep(60)
            assert pool._statistic.processes == n and len(pool.pids) == n, \
                "the workers are counted"
        for i, (k, t, r0, nk) in res.items():
            assert ran.get(i, 0) <= 1, "a task is run twice"
            if t == "cancelled":
                continue
            if t.cancelled():
                assert early, "a task is cancelled by nobody"
                continue
            e = t.exception()
            if i in died_with:
                assert isinstance(e, ProcessError), e
            elif early and e is not None:
                pass
            elif k == "ret":
                assert e is None and t.result() == i, (k, e)
            elif k == "value":
                assert isinstance(e, ValueError), e
            elif k == "falsy":
                assert isinstance(e, KeyError), e
            elif k == "conn":
                assert isinstance(e, ConnectionRefusedError), e
            else:
                assert e is not None and not isinstance(e, (ProcessError, asyncio.InvalidStateError)), (k, e)
        if not early:
            stop = True
            await pool.close()
        for s in sups:
            s.cancel()
        assert not pool.pids and pool._statistic.processes == 0, "closed pool counts workers"
        assert all(p >= PID for p, _ in kills)
        assert not [c for c in loop.errors if "never retrieved" not in c.get("message", "")], loop.errors

    wp.asyncio, wp.os, wp.Popen = ns, osn, popen
    logd = ww.logging
    ww.logging = Sink()
    try:
        cls = type("P", (wp.WorkerPool,), body)
        simloop.run(main)
    finally:
        ww.logging = logd
        for k in ("asyncio", "os", "Popen"):
            setattr(wp, k, saved[k])


FUZZ = [("pool", fuzz)]
FUZZ_S = 5
