"""pyvc.aio - contracts of asyncio primitives, for code driven symbolically.

A coroutine of /repo is driven by ``drive``: each ``await`` on one of the
primitives below suspends it and hands a request to the harness, which states
what may happen there (rely), checks what must hold there (guarantee) and
decides how the await ends.
"""
import asyncio
import types

from . import core
from .core import PathEnd, Unsupported


class Suspend:
    """``await Suspend(kind, ...)`` hands a request to the driver"""

    def __init__(self, kind, *args, **kw):
        self.kind = kind
        self.args = args
        self.kw = kw

    def __await__(self):
        return (yield self)

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.args)


class Ret:
    def __init__(self, value=None):
        self.value = value


class Exc:
    def __init__(self, exc):
        self.exc = exc


def drive(coro, handler):
    """run coro; handler(request) -> Ret/Exc.  -> ('ret', v) | ('exc', e)"""
    ctx = core.CURRENT
    if not hasattr(coro, "send"):
        it = coro.__await__()
    else:
        it = coro
    action = Ret(None)
    n = 0
    try:
        while True:
            n += 1
            if n > 5000:
                raise Unsupported("coroutine does not terminate")
            if ctx is not None and ctx.dead:
                raise PathEnd
            try:
                if isinstance(action, Exc):
                    req = it.throw(action.exc)
                else:
                    req = it.send(action.value)
            except StopIteration as e:
                return ("ret", e.value)
            except (PathEnd, Unsupported, core.Discard, core.Restart):
                raise
            except BaseException as e:
                if ctx is not None and ctx.dead:
                    raise PathEnd
                return ("exc", e)
            if not isinstance(req, Suspend):
                raise Unsupported("await on an unmodelled awaitable %r" % (
                    type(req),))
            action = handler(req)
    finally:
        if hasattr(it, "close"):
            try:
                it.close()
            except BaseException:
                pass


class NS:
    """a namespace standing for a module: given names are replaced by
    contracts, classes/constants of the real module pass through, any other
    function of the real module is outside of the contracts"""

    PASS = {
        "iscoroutinefunction", "isfuture", "iscoroutine",
    }

    def __init__(self, real, **given):
        self.__dict__["_real"] = real
        self.__dict__.update(given)

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, type) and issubclass(v, BaseException):
            return v
        if isinstance(v, type) or name in self.PASS:
            return v
        if callable(v):
            def stub(*a, **k):
                raise Unsupported("no contract for %s.%s" % (
                    getattr(self._real, "__name__", "?"), name))
            return stub
        return v


class Loop:
    """event loop: a clock which only moves at awaits"""

    def __init__(self, ctx, now):
        self.ctx = ctx
        self.now = now

    def time(self):
        return self.now

    def advance(self, name="dt"):
        d = self.ctx.real(name, 0)
        self.now = self.now + d
        return d

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def stub(*a, **k):
            raise Unsupported("no contract for loop.%s" % name)
        return stub


class Sink:
    """an object which swallows everything (loggers)"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def close_coro(c):
    if hasattr(c, "close"):
        try:
            c.close()
        except BaseException:
            pass


class WaitFor:
    """Contract of ``asyncio.wait_for(aw, timeout)``.

    The awaitable is awaited inside a cancellation scope.  The harness may end
    any await inside the scope with the scope's timeout (``expire``): that
    arrives in the inner code as CancelledError and leaves the scope as
    TimeoutError.  With ``timeout <= 0`` the awaitable is never started."""

    def __init__(self, aw, timeout, clock=None):
        self.aw = aw
        self.timeout = timeout
        self.clock = clock
        self.expired = False
        self.start = None

    def on_timeout(self, exc):
        """the scope itself raises exc"""

    @property
    def limit(self):
        return None if self.timeout is None else self.start + self.timeout

    def __await__(self):
        it = self.aw if hasattr(self.aw, "send") else self.aw.__await__()
        ctx = core.CURRENT
        scopes = ctx.__dict__.setdefault("scopes", [])
        if self.clock is not None:
            self.start = self.clock()
        if self.timeout is not None and self.timeout <= 0:
            done = getattr(self.aw, "vc_done", None)
            if done is not None and done():
                return (yield from self.aw.__await__())
            close_coro(it)
            e = asyncio.TimeoutError()
            self.on_timeout(e)
            raise e
        scopes.append(self)
        try:
            action, val = "send", None
            while True:
                try:
                    req = it.send(val) if action == "send" else it.throw(val)
                except StopIteration as e:
                    return e.value
                except asyncio.CancelledError as e:
                    if self.expired:
                        t = asyncio.TimeoutError()
                        self.on_timeout(t)
                        raise t from e
                    raise
                try:
                    val = yield req
                    action = "send"
                except (PathEnd, Unsupported):
                    raise
                except BaseException as e:
                    action, val = "throw", e
        finally:
            if scopes and scopes[-1] is self:
                scopes.pop()


def scopes():
    return list(core.CURRENT.__dict__.setdefault("scopes", []))


def expire(scope):
    """the request currently served ends because scope's time is over"""
    scope.expired = True
    return Exc(asyncio.CancelledError())


class SomeSet(core.Abstract):
    """A set of any size: an unknown part and what was added and removed.
    Copies and slices know the set they come from (``of``); ``part`` of them
    are not all of it."""

    def __init__(self, ctx, of=None, part=False):
        self.__dict__.update(ctx=ctx, added=[], removed=[], of=self if of is None else of, part=part, size=None)

    def add(self, x):
        self.added.append(x)

    def discard(self, x):
        self.removed.append(x)

    remove = discard

    def copy(self):
        return SomeSet(self.ctx, self.of, self.part)

    def __vc_list__(self):
        return self.copy()

    __vc_tuple__ = __vc_list__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SomeSet(self.ctx, self.of, True)
        raise core.Unsupported("one element of an unknown set")

    def __vc_len__(self):
        if self.size is None:
            self.__dict__["size"] = self.ctx.int("size", 0)
        return self.size + len(self.added)

    def __bool__(self):
        return bool(self.__vc_len__() > 0)

    def pop(self):
        self.removed.append("any element")
        return core.Unknown() if hasattr(core, "Unknown") else "any element"
