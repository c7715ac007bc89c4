"""C10: utils.awaitable, utils.shield, timeout.timeout."""
import asyncio
import types

from pyvc import aio, core
from pyvc.aio import Exc, NS, Ret, Suspend, WaitFor, drive, expire
from pyvc.core import conj, iff, implies
from pyvc.load import load, need

ASSUME = ["asyncio.shield(aw) protects aw from the cancellation of its awaiter",
          "asyncio.wait_for(aw, t) cancels aw and raises TimeoutError when t is over"]
CONTRACTS = ["utils.awaitable.wrap", "utils.shield.wrap", "timeout.timeout.wrap"]


class Failed(Exception):
    pass


class Falsy(Failed):
    def __bool__(self):
        return False


def args_of(ctx):
    a, b, c = object(), object(), object()
    return ctx.pick((((), {}), ((a,), {}), ((a, b), {}), ((), {"k": c}),
                     ((a, b), {"k": c, "z": None}), ((None, 0), {"func": a}),
                     ((), {"args": a, "kwargs": b, "self": c, "value": a})), "args")


def same(x, y):
    return len(x) == len(y) and all(p is q for p, q in zip(x, y))


def called(ctx, G, args, kw):
    ctx.check(len(G) == 1, "the function is called once")
    ctx.check(same(G[0][0], args) and set(G[0][1]) == set(kw)
              and all(G[0][1][k] is kw[k] for k in kw), "with the arguments of the caller")


def awaitable(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "awaitable")
    args, kw = args_of(ctx)
    G = []
    kind = ctx.pick(("value", "none", "zero", "empty", "exception object", "generator", "string",
                     "class", "generator coroutine", "coroutine", "future", "awaitable", "raises", "async"), "kind")
    boom = Falsy("x")

    class Aw:
        def __await__(self):
            yield Suspend("aw")
            return "aw"

        def __bool__(self):
            return False

    how = ctx.pick(("pending", "done", "failed", "cancelled"), "future") if kind == "future" else None

    class Fut:
        _asyncio_future_blocking = False

        def __bool__(self):
            return False

        def done(self):
            return how != "pending"

        def cancelled(self):
            return how == "cancelled"

        def exception(self):
            if how == "pending":
                raise asyncio.InvalidStateError
            if how == "cancelled":
                raise asyncio.CancelledError
            return boom if how == "failed" else None

        def result(self):
            if self.exception() is not None:
                raise boom
            return "fut"

        def __await__(self):
            yield Suspend("fut")
            return self.result()

    async def coro():
        await Suspend("coro")
        return "coro"

    def gen():
        yield 1
    vals = {"value": object(), "none": None, "zero": 0, "empty": [], "exception object": boom,
            "generator": gen(), "string": "", "class": Aw}
    obj = vals.get(kind)
    if kind == "coroutine":
        obj = coro()
    elif kind == "generator coroutine":
        obj = types.coroutine(gen)()
    elif kind == "future":
        obj = Fut()
    elif kind == "awaitable":
        obj = Aw()

    def fn(*a, **k):
        G.append((a, k))
        if kind == "raises":
            raise boom
        return obj

    async def afn(*a, **k):
        G.append((a, k))
        return await coro()
    if kind == "async":
        w = mod.awaitable(afn)
        r = w(*args, **kw)
        status, got = drive(r, lambda q: Ret(None))
        called(ctx, G, args, kw)
        ctx.check(status == "ret" and got == "coro", "a coroutine function stays as it is")
        return
    w = mod.awaitable(fn)
    try:
        r = w(*args, **kw)
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        called(ctx, G, args, kw)
        ctx.check(kind == "raises" and e is boom, "only its exception passes through", e)
        return
    called(ctx, G, args, kw)
    if kind in ("generator coroutine", "coroutine", "future", "awaitable"):
        ctx.check(r is obj, "an awaitable passes through as it is")
        aio.close_coro(obj)
        return
    seen = []
    ctx.check(hasattr(r, "__await__"), "the result can be awaited")
    status, got = drive(r, lambda q: seen.append(q) or Ret(None))
    called(ctx, G, args, kw)
    ctx.cover(kind)
    if kind == "raises":
        ctx.check(status == "exc" and got is boom, "the exception passes through")
    else:
        ctx.check(status == "ret" and got is obj, "any other value is what awaiting gives")


def shield(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "shield")
    args, kw = args_of(ctx)
    G, inner, cos = [], [], []
    kind = ctx.pick(("value", "none", "raises", "cancelled outside", "cancelled inside"), "kind")
    val = None if kind == "none" else object()
    boom = Falsy("x")
    cerr = asyncio.CancelledError()

    async def fn(*a, **k):
        G.append((a, k))

    class Co:
        def __init__(self):
            cos.append(self)

        def __await__(self):
            ctx.fail("the coroutine is awaited unprotected")
            yield

    def f(*a, **k):
        G.append((a, k))
        return Co()

    class Fut:
        def __init__(self, co):
            self.co = co
            inner.append(self)

        def __await__(self):
            return (yield Suspend("shield", self))
    mod.asyncio = NS(asyncio, shield=Fut)
    w = mod.shield(f)
    r = w(*args, **kw)
    ctx.check(hasattr(r, "__await__"), "the result can be awaited")
    ctx.check(len(inner) == len(cos),
              "a coroutine is shielded as soon as there is one, the caller may never run")

    def handler(q):
        if kind in ("cancelled outside", "cancelled inside"):
            return Exc(cerr)
        return Exc(boom) if kind == "raises" else Ret(val)
    status, got = drive(r, handler)
    called(ctx, G, args, kw)
    ctx.check(len(inner) == 1 and inner[0].co is cos[0] and len(cos) == 1,
              "the coroutine is shielded")
    ctx.cover(kind)
    if kind in ("value", "none"):
        ctx.check(status == "ret" and got is val, "the result passes through")
    elif kind == "raises":
        ctx.check(status == "exc" and got is boom, "the exception passes through")
    else:
        ctx.check(status == "exc" and got is cerr, "cancellation passes through")


def timeout(ctx):
    mod = load("aiomisc.timeout", transform=ctx.sym)
    need(mod, "timeout")
    args, kw = args_of(ctx)
    loop = aio.Loop(ctx, ctx.real("now", 0))
    limit = ctx.real("timeout")
    G, scopes, st = [], [], {}
    val, boom = object(), Falsy("x")

    class WF(WaitFor):
        def __init__(self, aw, timeout):
            super().__init__(aw, timeout, loop.time)
            scopes.append(self)
    mod.asyncio = NS(asyncio, wait_for=WF)

    async def fn(*a, **k):
        G.append((a, k))
        st["start"] = loop.now
        try:
            await Suspend("body")
        except asyncio.CancelledError:
            st["stopped"] = True
            k = ctx.pick(("stops", "converts"), "on cancel")
            if k == "converts":
                st["conv"] = True
                raise boom
            raise
        if st["k"] == "raises":
            raise boom
        return val if st["k"] == "value" else None

    def handler(q):
        d = loop.advance()
        if scopes[0].limit is not None and loop.now > scopes[0].limit:
            st["k"] = "expires"
            return expire(scopes[0])
        st["k"] = ctx.pick(("value", "none", "raises", "cancelled"), "outcome")
        if st["k"] == "cancelled":
            return Exc(asyncio.CancelledError())
        return Ret(None)
    w = mod.timeout(limit)(fn)
    status, got = drive(w(*args, **kw), handler)
    if limit <= 0:
        ctx.cover("no time")
        if G:
            raise core.Unsupported("runs without any time")
        ctx.check(status == "exc" and isinstance(got, asyncio.TimeoutError),
                  "no time at all: TimeoutError")
        return
    called(ctx, G, args, kw)
    took = loop.now - st["start"]
    k = st["k"]
    ctx.cover(k)
    if took > limit:
        ctx.check(k == "expires" and st.get("stopped", False),
                  "a function that runs longer is cancelled")
        if not st.get("conv"):
            ctx.check(status == "exc" and isinstance(got, asyncio.TimeoutError),
                      "TimeoutError when the time is over")
        return
    ctx.check(k != "expires", "a function within its time is not cancelled")
    if k == "cancelled":
        if not st.get("conv"):
            ctx.check(status == "exc" and isinstance(got, asyncio.CancelledError),
                      "cancellation passes through")
    elif k == "raises":
        ctx.check(status == "exc" and got is boom, "the exception passes through")
    else:
        ctx.check(status == "ret" and got is (val if k == "value" else None),
                  "the result passes through")


def refused(ctx):
    mod = load("aiomisc.timeout", transform=ctx.sym)
    try:
        mod.timeout(1)(lambda: None)
        ok = True
    except TypeError:
        ok = False
    ctx.check(not ok, "timeout accepts only coroutine functions")


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    from pyvc import simloop
    um = importlib.import_module("aiomisc.utils")
    tm = importlib.import_module("aiomisc.timeout")
    which = rng.choice(("timeout", "shield", "awaitable"))
    d = rng.choice((0, 0, 1, 2, rng.random() * 3))
    lim = rng.choice((1, 2, 2.5, rng.random() * 3 + .01, 0, -1))
    cleanup = rng.choice((0, 0, 1, 5))
    kill = rng.choice((None, None, 0, 1, 1.5, rng.random() * 3))
    kind = rng.choice(("ret", "exc", "base", "timeout"))
    val = rng.choice((None, 0, object(), "", [], Falsy("v"), asyncio.Future))
    boom = {"exc": rng.choice((Failed, Falsy))("b"), "base": KeyError("b"),
            "timeout": asyncio.TimeoutError("own"), "ret": None}[kind]
    args, kw = tuple(rng.sample([object(), None, 5], rng.randint(0, 3))), \
        rng.choice(({}, {"func": 1}, {"a": 5, "value": None}))
    log = {"calls": 0}

    async def main(loop):
        async def body(*a, **k):
            log["calls"] += 1
            assert a == args and k == kw, "wrong arguments"
            log["start"] = loop.time()
            try:
                if d:
                    await asyncio.sleep(d)
            except asyncio.CancelledError:
                log.setdefault("cancelled", loop.time())
                try:
                    if cleanup:
                        await asyncio.sleep(cleanup)
                finally:
                    log["end"] = loop.time()
                raise
            log["end"] = loop.time()
            if boom is not None:
                raise boom
            return val

        def plain(*a, **k):
            f = body(*a, **k)
            form = rng.choice(("coro", "task"))
            return f if form == "coro" else loop.create_task(f)

        if rng.random() < 0.1:
            # whatever the function returns is passed through or wrapped
            fut = loop.create_future()
            how = rng.choice(("ret", "exc", "cancel", "pending"))
            if how == "ret":
                fut.set_result(val)
            elif how == "exc":
                fut.set_exception(Failed("f"))
            elif how == "cancel":
                fut.cancel()
            got = um.awaitable(lambda *a, **k: fut)(*args, **kw)
            assert got is fut, "a future is passed through as it is"
            assert await um.awaitable(lambda *a, **k: val)(*args, **kw) is val, "any other value is wrapped"
            await asyncio.gather(*([got] if how != "pending" else []), return_exceptions=True)
            return

        t0 = loop.time()
        if which == "timeout":
            f = tm.timeout(lim)(body)
        elif which == "shield":
            f = um.shield(body)
        else:
            f = um.awaitable(rng.choice((body, plain)))

        async def call():
            return await f(*args, **kw)
        if which == "shield" and rng.random() < 0.2:
            # called, and cancelled before its first step
            made = []

            def count(*a, **k):
                made.append(1)
                return body(*a, **k)
            task = loop.create_task(um.shield(count)(*args, **kw))
            task.cancel()
            res = (await asyncio.gather(task, return_exceptions=True))[0]
            assert isinstance(res, asyncio.CancelledError), "cancellation gives %r" % (res,)
            await asyncio.sleep(20)
            assert not made or log["calls"] == 1 and log.get("end") == t0 + d and "cancelled" not in log, \
                "the shielded coroutine was not run to its end"
            return
        task = loop.create_task(call())
        if kill is not None:
            loop.call_later(kill, task.cancel)
        try:
            r, status = await task, "ret"
        except BaseException as e:
            r, status = e, "exc"
        now = loop.time()
        end = t0 + d
        killed = kill is not None and t0 + kill < end + 1e-9
        tout = which == "timeout" and (t0 + lim < end + 1e-9)
        if which == "timeout" and lim <= 0:
            if kill is None or kill > 0:
                assert status == "exc" and isinstance(r, asyncio.TimeoutError), "no TimeoutError"
            return
        if kill == 0 and log["calls"] == 0:
            assert isinstance(r, asyncio.CancelledError)
            return
        assert log["calls"] == 1, "called %d times" % log["calls"]
        if killed and (not tout or kill < lim - 1e-9):
            if abs(t0 + kill - end) < 1e-6:
                return          # a tie
            assert status == "exc" and isinstance(r, asyncio.CancelledError), \
                "cancellation gives %r" % (r,)
            if which == "shield":
                await asyncio.sleep(20)
                assert "cancelled" not in log and log.get("end") == end, \
                    "the shielded coroutine was disturbed"
            else:
                assert log.get("cancelled") == t0 + kill, "the function was not cancelled"
                assert "end" in log, "the function is still running"
            return
        if tout:
            if abs(t0 + lim - end) < 1e-6 or (
                    kill is not None and kill <= lim + cleanup + 1e-6):
                return          # a tie, or cancelled in the clean up
            assert status == "exc" and isinstance(r, asyncio.TimeoutError) and r is not boom, \
                "no TimeoutError: %r" % (r,)
            assert log.get("cancelled") == t0 + lim, "not cancelled at its limit"
            assert "end" in log, "the function is still running"
            return
        if kind == "ret":
            assert status == "ret" and r is val, "wrong result %r" % (r,)
        else:
            assert status == "exc" and r is boom, "wrong exception %r" % (r,)
        assert "cancelled" not in log and now == end, "wrong time"
    simloop.run(main)


HARNESSES = [("awaitable", awaitable), ("shield", shield), ("timeout", timeout),
             ("timeout of a plain function", refused)]
FUZZ = [("wrappers", fuzz)]
FUZZ_S = 4
