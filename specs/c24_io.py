"""C24: aiomisc.io."""
import asyncio
import bz2
import concurrent.futures
import gc
import gzip
import io
import lzma
import os
import shutil
import sys
import tempfile

from pyvc import core
from pyvc.aio import NS, Exc, Ret, Suspend, close_coro, drive
from pyvc.load import load, need

ASSUME = ["loop.run_in_executor runs the function once and gives its result or exception; asyncio.Lock excludes",
          "tell, readable, writable, seekable, fileno, isatty and plain attributes may be answered in the loop",
          "two operations of one file may run at the same time in the executor unless they are iterations "
          "(the wrapped files have to allow it)",
          "a line is lost when the iteration waiting for it is cancelled"]
CONTRACTS = ["every method of AsyncFileIO/AsyncBinaryIO/AsyncTextIO (for all arguments, results and exceptions)",
             "AsyncFileIO.open/__await__/__aenter__/__aexit__/__del__", "AsyncFileIO.__anext__ (for all lines, "
             "all interleavings of three iterations over up to three lines)",
             "AsyncFileIO.__eq__/__hash__", "AsyncTextIO.buffer", "async_open (files compared with the standard "
             "library, cross-check only)"]

BOUNDED = {"iterations": "three lines, three iterations", "opens": "three tasks"}


class ModelLock:
    """contract of asyncio.Lock"""

    def __init__(self, *a, **k):
        self.held = False

    async def acquire(self):
        while self.held:
            await Suspend("lock", self)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("not locked")
        self.held = False

    def locked(self):
        return self.held

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Thing:
    """an opaque value; as a line it has a length"""

    def __init__(self, n=1):
        self.n = n

    def __vc_len__(self):
        return self.n

    def __len__(self):
        return self.n if isinstance(self.n, int) else int(self.n)

    def __bool__(self):
        return bool(self.n > 0)


class File:
    """the wrapped file: records what runs, and where"""

    def __init__(self, w, buffer=None):
        self.w = w
        self.closed = False
        self.mode, self.name = Thing(), Thing()
        self.newlines, self.errors, self.encoding, self.line_buffering = Thing(), Thing(), Thing(), Thing()
        self.plain = Thing()
        self.calls = []
        if buffer:
            self.buffer = buffer

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("buffer", "missing"):
            raise AttributeError(name)

        def method(*a, **k):
            self.calls.append((name, a, k, self.w.thread))
            self.w.enter(self, name)
            if self.w.exc is not None:
                raise self.w.exc
            if name in ("close", "__exit__"):
                self.closed = True
            return self.w.result
        return method

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return self._exit(*a)

    def _exit(self, *a):
        self.calls.append(("__exit__", a, {}, self.w.thread))
        if self.w.exc is not None:
            raise self.w.exc
        self.closed = True


class World:
    """an executor which is not the default one, a loop"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.executor = Thing()
        self.thread = None
        self.exc = None
        self.result = Thing()
        self.jobs = 0
        self.opened = []
        self.open_args = None
        w = self

        class Loop:
            def run_in_executor(self, executor, func, *args):
                w.jobs += 1
                return Suspend("job", executor, func, args)

            def is_closed(self):
                return False
        self.loop = Loop()

    def enter(self, fp, name):
        pass

    def run(self, q, cancel=None):
        """an executor runs the job"""
        if q.kind != "job":
            raise core.Unsupported("await on %s" % q.kind)
        executor, func, args = q.args
        if cancel is not None:
            return Exc(cancel)
        self.thread = executor
        try:
            return Ret(func(*args))
        except (core.PathEnd, core.Unsupported):
            raise
        except BaseException as e:
            return Exc(e)
        finally:
            self.thread = None


def module(ctx):
    mod = load("aiomisc.io", transform=ctx.sym)
    need(mod, "AsyncFileIO", "AsyncTextIO", "AsyncBinaryIO", "async_open")
    mod.asyncio = NS(asyncio, Lock=ModelLock)
    return mod


BASES = ("AsyncFileIO", "AsyncBinaryIO", "AsyncTextIO")
# name, (args, kwargs) the caller gives; what the file must get: the same, up
# to defaults
GIVEN = {
    "read": [((), {}), ((1,), {}), ((), {"n": 1})], "readline": [((), {}), ((1,), {}), ((), {"limit": 1})],
    "readlines": [((), {}), ((1,), {})], "seek": [((1,), {}), ((1, 1), {})],
    "truncate": [((), {}), ((1,), {})], "write": [((1,), {})], "writelines": [((1,), {})], "flush": [((), {})],
    "close": [((), {})], "tell": [((), {})], "readable": [((), {})], "seekable": [((), {})],
    "writable": [((), {})], "read1": [((), {}), ((1,), {}), ((1,), {"k": 1}), ((), {"k": 1, "l": 1})],
    "reconfigure": [((), {"encoding": 1})],
}
DEFAULTS = {"read": (-1,), "readline": (-1,), "readlines": (-1,), "seek": (None, 0), "truncate": (None,)}
INLINE = ("tell", "readable", "seekable", "writable")


def equal_args(name, want, got):
    """the file gets the arguments given (keywords are positions of the
    file's method; defaults may be left out)"""
    (wa, wk), (ga, gk) = want, got
    wa, ga = list(wa), list(ga)
    if name in DEFAULTS:
        for k in ("n", "limit", "offset", "whence", "size"):
            if k in wk:
                wa.append(wk[k])
        wk = {}
        d = DEFAULTS[name]
        wa += d[len(wa):]
        ga += d[len(ga):]
    return len(wa) == len(ga) and all(x is y for x, y in zip(wa, ga)) and set(wk) == set(gk) \
        and all(wk[k] is gk[k] for k in wk)


def make(ctx, mod, w, opened=True):
    base = getattr(mod, ctx.pick(BASES, "class"))
    fp = File(w)

    def opener(*a, **k):
        w.opened.append((a, k, w.thread))
        if w.exc is not None:
            raise w.exc
        return fp

    class F(base):
        @staticmethod
        def get_opener():
            return opener
    if opened == "given":
        return base.open_fp(fp, executor=w.executor, loop=w.loop), fp
    w.open_args = ("name", "rb"), {"x": Thing()}
    f = F("name", "rb", w.executor, loop=w.loop, **w.open_args[1])
    if opened:
        st, v = drive(f.open(), w.run)
        ctx.check(st == "ret", "a file can be opened", v)
    return f, fp


def guard(ctx, f):
    def h(ctx):
        try:
            f(ctx)
        except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
            raise
        except Exception as e:
            ctx.check(False, "no operation fails by itself", repr(e))
    h.__name__ = f.__name__
    h.__doc__ = f.__doc__
    return h


def operation(ctx):
    """one operation: once, in the executor, same arguments, same outcome"""
    mod = module(ctx)
    w = World(ctx)
    f, fp = make(ctx, mod, w, ctx.pick((True, "given"), "opened"))
    name = ctx.pick(sorted(GIVEN), "operation")
    given = GIVEN[name]
    pa, pk = given[ctx.choose(len(given), "arguments")]
    args = tuple(Thing(ctx.choose(2, "falsy")) for _ in pa)
    kw = {k: Thing() for k in pk}
    how = ctx.pick(("result", "falsy", "error", "base", "cancelled"), "outcome")
    del fp.calls[:]
    want = {"result": Thing(), "falsy": Thing(0), "error": OSError("x"), "base": KeyboardInterrupt(),
            "cancelled": asyncio.CancelledError()}[how]
    if how in ("error", "base"):
        w.exc = want
    else:
        w.result = want
    cancelled = []

    def handler(q):
        if how == "cancelled":
            cancelled.append(1)
            return w.run(q, cancel=want)
        return w.run(q)
    st, v = drive(getattr(f, name)(*args, **kw), handler)
    w.exc = None
    if how == "cancelled" and cancelled:
        ctx.check(st == "exc" and v is want, "a cancellation is passed on", v)
        ctx.cover("cancelled")
        return
    ctx.check(len(fp.calls) == 1, "the operation is run once", fp.calls)
    got, ga, gk, where = fp.calls[0]
    ctx.check(got == name, "the operation of the same name is run", got)
    ctx.check(equal_args(name, (args, kw), (ga, gk)), "with the same arguments", (args, kw, ga, gk))
    ctx.check(where is w.executor or name in INLINE and where is None, "in the executor")
    if how in ("error", "base"):
        ctx.check(st == "exc" and v is want, "the exception of the file is passed on", v)
    else:
        ctx.check(st == "ret", "the result of the file is given", v)
        if name not in ("flush", "writelines", "close"):
            ctx.check(v is want, "the result of the file is given", v)
    ctx.cover("run")


def attributes(ctx):
    """what is known without waiting"""
    mod = module(ctx)
    w = World(ctx)
    f, fp = make(ctx, mod, w, ctx.pick((True, "given"), "opened"))
    fp.closed = bool(ctx.choose(2, "closed"))
    ctx.check(f.fp is fp, "the wrapped file")
    ctx.check(f.closed() == fp.closed, "closed")
    ctx.check(f.mode is fp.mode and f.name is fp.name, "the attributes of the file")
    ctx.check(f.fileno() is w.result and fp.calls[-1][0] == "fileno", "the attributes of the file")
    ctx.check(f.isatty() is w.result and fp.calls[-1][0] == "isatty", "the attributes of the file")
    if isinstance(f, mod.AsyncTextIO):
        for a in ("newlines", "errors", "encoding", "line_buffering"):
            ctx.check(getattr(f, a) is getattr(fp, a), "the attributes of the file", a)
    st, v = drive(f.plain(), w.run)
    ctx.check(st == "ret" and v is fp.plain, "the attributes of the file", v)
    st, v = drive(f.missing(), w.run)
    ctx.check(st == "exc" and isinstance(v, AttributeError), "what the file does not have is an error", v)
    ctx.cover("end")


def opening(ctx):
    """opening: once, in the executor, with the arguments given"""
    mod = module(ctx)
    w = World(ctx)
    f, fp = make(ctx, mod, w, False)
    # not opened yet
    for n in ("read", "write", "close", "tell", "other"):
        st, v = drive(getattr(f, n)(*([Thing()] if n == "write" else [])), w.run)
        ctx.check(st == "exc" and isinstance(v, Exception), "a file which was not opened is an error", n)
    for g in (lambda: f.fileno(), lambda: f.mode, lambda: f.closed()):
        try:
            g()
            ctx.check(False, "a file which was not opened is an error")
        except (RuntimeError, AttributeError):
            pass
    ctx.check(not w.opened, "a file is not opened by itself")
    fails = ctx.choose(2, "fails")
    if fails:
        w.exc = FileNotFoundError("x")
        st, v = drive(f.open(), w.run)
        ctx.check(st == "exc" and v is w.exc, "the exception of opening is passed on", v)
        w.exc = None
        del w.opened[:]
    how = ctx.pick(("open", "await", "with"), "how")

    async def use():
        if how == "open":
            await f.open()
        elif how == "await":
            got.append(await f)
        else:
            async with f as g:
                got.append(g)
                await f.open()
                await f
    got = []
    st, v = drive(use(), w.run)
    ctx.check(st == "ret", "a file can be opened", v)
    ctx.check(all(g is f for g in got), "opening gives the file object")
    ctx.check(len(w.opened) == 1, "a file is opened once", len(w.opened))
    a, k, where = w.opened[0]
    ctx.check(a == w.open_args[0] and set(k) == {"x"} and k["x"] is w.open_args[1]["x"], "with the arguments given", a)
    ctx.check(where is w.executor, "in the executor")
    ctx.check(f.fp is fp, "the wrapped file")
    ctx.check(fp.closed == (how == "with"), "leaving the context closes the file")
    ctx.cover("opened")


def context(ctx):
    """leaving the context: closes the file, however it is left"""
    mod = module(ctx)
    w = World(ctx)
    f, fp = make(ctx, mod, w, ctx.pick((True, False, "given"), "opened"))
    how = ctx.pick(("end", "error", "cancel", "base"), "body")
    e = {"end": None, "error": Falsy(), "cancel": asyncio.CancelledError(), "base": SystemExit(1)}[how]
    close_fails = ctx.choose(2, "close fails")

    async def use():
        async with f as g:
            ctx.check(g is f, "opening gives the file object")
            if close_fails:
                w.exc = OSError("full")
            if e is not None:
                raise e
            return 5
    st, v = drive(use(), w.run)
    x = [c for c in fp.calls if c[0] in ("close", "__exit__")]
    ctx.check(len(x) == 1, "leaving the context closes the file", x)
    ctx.check(x[0][3] is w.executor, "in the executor")
    if close_fails:
        ctx.check(st == "exc" and v is w.exc, "the exception of closing is passed on", v)
    else:
        ctx.check(fp.closed, "leaving the context closes the file")
        if e is not None:
            ctx.check(st == "exc" and v is e, "the exception of the body is passed on", v)
        else:
            ctx.check(st == "ret" and v == 5, "the exception of the body is passed on", v)
    w.exc = None
    ctx.cover("left")


class Falsy(Exception):
    def __bool__(self):
        return False


def iterate(ctx):
    """one step of an iteration, for every line"""
    mod = module(ctx)
    w = World(ctx)
    f, fp = make(ctx, mod, w, ctx.pick((True, "given"), "opened"))
    n = ctx.int("length", 0, near=2)
    line = Thing(n)
    fails = ctx.choose(2, "fails")
    if fails:
        w.exc = OSError("x")
    w.result = line
    del fp.calls[:]
    it = f.__aiter__()
    st, v = drive(it.__anext__(), w.run)
    ctx.check([c[0] for c in fp.calls] == ["readline"], "an iteration reads one line", fp.calls)
    ctx.check(equal_args("readline", ((), {}), fp.calls[0][1:3]), "an iteration reads a whole line")
    ctx.check(fp.calls[0][3] is w.executor, "in the executor")
    if fails:
        ctx.check(st == "exc" and v is w.exc, "the exception of the file is passed on", v)
        w.exc = None
    elif st == "ret":
        ctx.check(v is line, "an iteration gives the line")
        ctx.check(n > 0, "the end of the file ends the iteration")
        ctx.cover("line")
    else:
        ctx.check(isinstance(v, StopAsyncIteration), "an iteration gives the line", v)
        ctx.check(n == 0, "only the end of the file ends the iteration")
        ctx.cover("end")
    # nothing is left behind
    w.result = Thing()
    st, v = drive(it.__anext__(), w.run)
    ctx.check(st == "ret" and v is w.result, "the iteration goes on", v)


class Sched:
    """runs coroutines in every order; jobs of the executor may take long"""

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.tasks = []

    def spawn(self, coro, name):
        self.tasks.append([coro, None, name, None, None])

    def step(self, t, action):
        coro = t[0]
        try:
            if isinstance(action, Exc):
                q = coro.throw(action.exc)
            else:
                q = coro.send(action.value)
        except StopIteration as e:
            t[3], t[4] = "ret", e.value
            return
        except (core.PathEnd, core.Unsupported):
            raise
        except BaseException as e:
            t[3], t[4] = "exc", e
            return
        if not isinstance(q, Suspend):
            raise core.Unsupported("await on %r" % type(q))
        t[1] = q
        if q.kind == "job":
            # the executor begins at once, the result comes later
            if q.args[0] is not self.w.executor:
                self.ctx.check(False, "in the executor")
            self.w.inflight.append(t)
            self.ctx.check(len(self.w.inflight) == 1 or self.w.may_overlap, "iterations do not overlap")

    def run(self, cancel=0):
        ctx = self.ctx
        while True:
            live = [t for t in self.tasks if t[3] is None
                    and not (t[1] is not None and t[1].kind == "lock" and t[1].args[0].held)]
            rest = [t for t in self.tasks if t[3] is None]
            if not rest:
                return
            if not live:
                ctx.check(False, "no iteration waits forever")
                raise core.PathEnd
            t = live[ctx.choose(len(live), "task") if len(live) > 1 else 0]
            q = t[1]
            if cancel and q is not None and ctx.choose(2, "cancel"):
                cancel -= 1
                if q.kind == "job":
                    self.w.inflight.remove(t)
                t[1] = None
                self.step(t, Exc(asyncio.CancelledError()))
                continue
            t[1] = None
            if q is not None and q.kind == "job":
                a = self.w.run(q)
                self.w.inflight.remove(t)
                self.step(t, a)
            else:
                self.step(t, Ret(None))


def iterations(ctx):
    """several iterations at once: every line is given once, in order"""
    mod = module(ctx)
    w = World(ctx)
    w.inflight, w.may_overlap = [], False
    f, fp = make(ctx, mod, w, "given")
    n = ctx.choose(4, "lines")
    lines = [Thing(1 + i) for i in range(n)]
    left = list(lines)

    class Lines(File):
        def readline(self, *a):
            self.calls.append(("readline", a, {}, w.thread))
            return left.pop(0) if left else Thing(0)
    f._fp.__class__ = Lines
    got = []
    k = 2 if n == 3 or not ctx.choose(2, "three") else 3
    s = Sched(ctx, w)
    cancel = ctx.choose(2, "cancellation") if k == 2 else 0

    async def reader():
        async for line in f:
            got.append(line)
    for i in range(k):
        s.spawn(reader(), i)
    s.run(cancel)
    for t in s.tasks:
        ctx.check(t[3] == "ret" or isinstance(t[4], asyncio.CancelledError), "an iteration ends with the file", t[4])
    if cancel:
        ctx.check(all(any(g is x for x in lines) for g in got), "lines are given once, in order")
    else:
        ctx.check(len(got) == n and all(a is b for a, b in zip(got, lines)), "lines are given once, in order")
    ctx.cover("end")


def opens(ctx):
    """opened by several tasks at once"""
    mod = module(ctx)
    w = World(ctx)
    w.inflight, w.may_overlap = [], True
    f, fp = make(ctx, mod, w, False)
    s = Sched(ctx, w)

    async def use():
        await f.open()
        ctx.check(f.fp is fp, "the wrapped file")
        return True
    for i in range(3):
        s.spawn(use(), i)
    s.run(ctx.choose(2, "cancellation"))
    ok = [t for t in s.tasks if t[3] == "ret"]
    ctx.check(all(t[3] == "ret" or isinstance(t[4], asyncio.CancelledError) for t in s.tasks), "a file can be opened")
    ctx.check(len(w.opened) == 1 if len(ok) == 3 else len(w.opened) <= 2, "a file is opened once", len(w.opened))
    ctx.cover("end")


def equality(ctx):
    """file objects are equal if they wrap the same file"""
    mod = module(ctx)
    w = World(ctx)
    a, fa = make(ctx, mod, w, "given")
    cls = type(a)
    other = ctx.pick(("same file", "itself", "class", "files", "value"), "other")
    if other == "same file":
        b = cls.open_fp(fa, executor=w.executor, loop=w.loop)
        ctx.check(a == b and not a != b and hash(a) == hash(b), "objects of the same file are equal")
    elif other == "itself":
        ctx.check(a == a and not a != a and hash(a) == hash(a), "a file object is itself")
        ctx.check(a in {a}, "a file object is itself")
    elif other == "class":
        b = mod.AsyncGzipBinaryIO.open_fp(fa, executor=w.executor, loop=w.loop)
        ctx.check(not a == b and a != b, "objects of different classes are not equal")
    elif other == "value":
        ctx.check(not a == 5 and a != None and not a == fa, "a file object is not another value")  # noqa: E711
    else:
        b = cls.open_fp(File(w), executor=w.executor, loop=w.loop)
        ctx.check(not a == b and a != b, "objects of different files are not equal")
    ctx.cover("end")


def dropping(ctx):
    """objects which are no longer used"""
    mod = module(ctx)
    w = World(ctx)
    how = ctx.pick(("unopened", "opened", "closed"), "state")
    f, fp = make(ctx, mod, w, {"unopened": False, "opened": True, "closed": True}[how])
    fp.closed = how == "closed"
    del fp.calls[:]
    try:
        f.__del__()
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.check(False, "dropping an object does not fail", repr(e))
    f._fp = None
    n = [c[0] for c in fp.calls]
    ctx.check(n == (["close"] if how == "opened" else []), "an open file is closed when it is dropped", n)
    ctx.cover("end")


def buffer(ctx):
    """the binary file below a text file"""
    mod = module(ctx)
    w = World(ctx)
    raw = File(w)
    if ctx.choose(2, "anonymous"):
        del raw.name, raw.mode
        raw.__class__ = Anonymous
    fp = File(w, buffer=raw)
    f = mod.AsyncTextIO.open_fp(fp, executor=w.executor, loop=w.loop)
    b = f.buffer()
    ctx.check(isinstance(b, mod.AsyncBinaryIO), "the buffer is a binary file")
    st, v = drive(b.read(), w.run)
    ctx.check(st == "ret" and v is w.result, "the buffer reads the buffer", v)
    ctx.check([c[0] for c in raw.calls] == ["read"] and not fp.calls, "the buffer reads the buffer")
    ctx.check(raw.calls[0][3] is w.executor, "in the executor")
    b = None
    gc.collect() if not ctx.sym else None
    ctx.check([c[0] for c in raw.calls] == ["read"] and not raw.closed, "dropping the buffer does not close the file")
    b = f.buffer()
    st, v = drive(b.read(), w.run)
    ctx.check(st == "ret" and v is w.result, "the buffer reads the buffer", v)
    ctx.cover("end")


class Anonymous(File):
    def __getattr__(self, name):
        if name in ("name", "mode"):
            raise AttributeError(name)
        return File.__getattr__(self, name)


HARNESSES = [(h.__name__, guard(None, h)) for h in (
    operation, attributes, opening, context, iterate, iterations, opens, equality, dropping, buffer)]


POOL = None


def pool():
    global POOL
    if POOL is None:
        POOL = concurrent.futures.ThreadPoolExecutor(4)
    return POOL


STD = {"NONE": open, "GZIP": gzip.open, "BZ2": bz2.open, "LZMA": lzma.open}


def fuzz(rng):
    """the same operations on an async file and on a plain one"""
    import aiomisc.io as aio
    d = tempfile.mkdtemp(prefix="c24-")

    async def main():
        comp = rng.choice(list(aio.Compression))
        std = STD[comp.name]
        names = [os.path.join(d, x) for x in "ab"]
        text = rng.random() < 0.5
        have = False
        for _ in range(rng.randrange(1, 4)):
            mode = rng.choice("wra" if comp.name != "NONE" else ("w", "r", "a", "r+", "w+", "a+", "x"))
            if not have and mode[0] == "r":
                continue
            have = have or mode != "x" or not os.path.exists(names[0])
            if text:
                enc = rng.choice(("utf-8", "latin-1"))
                kw = {"encoding": enc}
                if rng.random() < 0.3:
                    kw["errors"] = "replace"
                if rng.random() < 0.3:
                    kw["newline"] = rng.choice(("", "\n"))
                if rng.random() < 0.3 and enc == "utf-8":
                    del kw["encoding"]
                m = mode if rng.random() < 0.5 and comp.name == "NONE" else mode
                pm = mode + "t"
                if rng.random() < 0.3:
                    m = pm
                pkw = dict(kw)
                pkw.setdefault("encoding", sys.getdefaultencoding())
            else:
                i = rng.randrange(len(mode) + 1)
                kw, pkw, m = {}, {}, mode[:i] + "b" + mode[i:]
                pm = m
            f = aio.async_open(names[0], m, comp, executor=pool(), **kw) if rng.random() < 0.8 else \
                aio.async_open(names[0], m, compression=comp, **kw)
            cls = comp.value[1 if text else 0]
            assert type(f) is cls, "the class of the file"
            try:
                p = std(names[1], pm, **pkw)
            except Exception as e:
                try:
                    await f
                    assert False, "opening did not fail with %r" % e
                except type(e):
                    continue
            if rng.random() < 0.5:
                await f
                if rng.random() < 0.3:
                    await f.open()
            else:
                await f.open()
            for _ in range(rng.randrange(0, 10)):
                data = "".join(rng.choice(("a", "b\n", "\n", "\u00e9", "xyz", "\r\n")) for _ in range(rng.randrange(6)))
                data = data if text else data.encode()
                op, args = rng.choice([
                    ("read", ()), ("read", (rng.randrange(4),)), ("readline", ()), ("readline", (2,)),
                    ("readlines", ()), ("readlines", (2,)), ("write", (data,)), ("write", (data,)),
                    ("writelines", ([data, data],)), ("flush", ()), ("tell", ()), ("seek", (0,)),
                    ("seek", (0, 2)), ("truncate", ()), ("truncate", (3,)), ("readable", ()), ("writable", ()),
                    ("seekable", ()), ("iterate", ()), ("closed", ()), ("peek", (1,)), ("close", ())
                ])

                async def run_a():
                    if op == "iterate":
                        r = []
                        async for x in f:
                            r.append(x)
                        return r
                    if op == "closed":
                        return f.closed()
                    return await getattr(f, op)(*args)

                def run_p():
                    if op == "iterate":
                        return list(iter(p.readline, data[:0]))
                    if op == "closed":
                        return p.closed
                    return getattr(p, op)(*args)
                try:
                    want = ("ret", run_p())
                except Exception as e:
                    want = ("exc", type(e))
                try:
                    got = ("ret", await run_a())
                except Exception as e:
                    got = ("exc", type(e))
                if op in ("flush", "writelines", "close") and want[0] == "ret":
                    assert got[0] == "ret", (op, got)
                else:
                    assert got == want, (op, args, got, want)
            if rng.random() < 0.5:
                await f.close()
            else:
                try:
                    async with f:
                        pass
                except ValueError:
                    await f.close()
            p.close()
            assert f.closed(), "the file is closed"

            def content(n):
                if comp.name == "GZIP":
                    with gzip.open(n, "rb") as x:
                        return x.read()
                with open(n, "rb") as x:
                    return x.read()
            assert content(names[0]) == content(names[1]), "the files differ"
    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(d)


def fuzz_iterate(rng):
    """several readers of one file: every line once"""
    import aiomisc.io as aio
    d = tempfile.mkdtemp(prefix="c24-")
    lines = ["%d%s\n" % (i, "x" * rng.randrange(4)) for i in range(rng.randrange(0, 60))]
    how = rng.choice(("text", "crlf", "binary"))
    end = "\r\n" if how != "text" else "\n"
    lines = [x[:-1] + end for x in lines]
    # at most one of a kind, the readers have to be told apart
    if lines and rng.random() < 0.5:
        lines.insert(rng.randrange(len(lines)), end)
    if how == "binary":
        lines = [x.encode() for x in lines]
    mode, kw = ("b", {}) if how == "binary" else ("", {"newline": ""} if how == "crlf" else {})
    with open(os.path.join(d, "a"), "w" + mode, **kw) as f:
        f.writelines(lines)

    async def main():
        async with aio.async_open(os.path.join(d, "a"), "r" + mode, executor=pool(), **kw) as f:
            outs = []

            async def reader():
                out = []
                outs.append(out)
                async for x in f:
                    out.append(x)
                    if rng.random() < 0.1:
                        await asyncio.sleep(0)
            await asyncio.gather(*(reader() for _ in range(rng.randrange(1, 5))))
            order = {x: i for i, x in enumerate(lines)}
            assert sorted(order[x] for o in outs for x in o) == list(range(len(lines))), "lines are given once"
            for o in outs:
                assert [order[x] for x in o] == sorted(order[x] for x in o), "lines are given in order"
    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(d)


FUZZ = [("operations", fuzz), ("iterations", fuzz_iterate)]
FUZZ_S = 3
