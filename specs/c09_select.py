"""C09: utils.SelectResult / SelectAwaitable."""
import asyncio

from pyvc import aio, core
from pyvc.aio import Exc, NS, Ret, Suspend, drive
from pyvc.core import conj, iff, implies
from pyvc.load import Cut, SymSeq, load, need, vc_call

ASSUME = ["asyncio.wait(FIRST_COMPLETED) returns when the first of its tasks is done",
          "cancel_tasks is used through its contract (C08)"]
CONTRACTS = ["SelectResult.set_result/result/done/__iter__ (any length)",
             "SelectAwaitable.__waiter", "SelectAwaitable.__await__ (any number of awaitables)",
             "SelectAwaitable.__run"]


class Failed(Exception):
    pass


class Falsy(Failed):
    def __bool__(self):
        return False


class Base(BaseException):
    pass


def result(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "SelectResult")
    n = ctx.int("length", 1, near=12)
    if not ctx.sym:
        n = n % 12 + 1
    r = mod.SelectResult(n)
    need(r, "value", "result_idx", "is_exception")
    ctx.check(not r.done(), "nothing is there before the first result")
    idx = ctx.int("idx", 0)
    if not ctx.sym:
        idx = idx % n
    ctx.assume(idx < n)
    val = Falsy("v") if ctx.choose(2, "falsy") else Failed("v")
    exc = bool(ctx.choose(2, "exception"))
    r.set_result(idx, val, exc)
    idx2 = ctx.int("idx2", 0)
    r.set_result(idx2, Failed("other"), bool(ctx.choose(2, "exception2")))
    ctx.check(conj(r.result_idx == idx, r.value is val, bool(r.is_exception) == exc),
              "the first result is kept")
    ctx.check(bool(r.done()), "done after the first result")
    try:
        got = r.result()
        ctx.check(not exc and got is val, "result() returns the value")
    except Failed as e:
        ctx.check(exc and e is val, "result() raises the exception")

    # iteration: the value at its index, None elsewhere, length items
    class G:
        y = 0

    def havoc(c):
        G.y = c.int("yielded", 0)
    ctx.loops = {("for",): Cut(havoc, lambda c: [
        (G.y == c.iter_index, "one item per index")], obj=lambda c, nme, v: v)}
    gen = iter(r)
    k = 0
    while True:
        k += 1
        if ctx.sym and k > 5:
            raise core.Unsupported("iteration does not go through its loop")
        try:
            v = next(gen)
        except StopIteration:
            break
        ctx.check(v is (val if G.y == idx else None),
                  "the value is at its own index, None at every other")
        G.y = G.y + 1
    ctx.check(G.y == n, "one item per awaitable")
    if not ctx.sym:
        ctx.check(len(r) == n, "one item per awaitable")
    ctx.cover("end")


def waiter(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    S = mod.SelectAwaitable
    need(S, "_SelectAwaitable__waiter")
    s = S()
    idx = ctx.int("idx", 0)
    if not ctx.sym:
        idx = idx % 7
    r = mod.SelectResult(9)
    first = object()
    already = ctx.choose(2, "already decided")
    if already:
        r.set_result(8, first, False)
    s._result = r
    need(s, "_result")
    k = ctx.pick(("value", "none", "exception", "timeout", "cancelled", "base"), "outcome")
    val, exc = object(), {"exception": Falsy("x"), "timeout": asyncio.TimeoutError(),
                          "cancelled": asyncio.CancelledError(), "base": Base()}.get(k)

    class Aw:
        n = 0

        def __await__(self):
            Aw.n += 1
            yield Suspend("aw")
            if exc is not None:
                raise exc
            return None if k == "none" else val
    status, got = drive(s._SelectAwaitable__waiter(idx, Aw()), lambda q: Ret(None))
    ctx.check(Aw.n == 1, "each awaitable is awaited once")
    if already:
        ctx.check(r.value is first and r.result_idx == 8 and not r.is_exception,
                  "a decided result never changes")
    elif k in ("value", "none"):
        ctx.check(r.done() and r.result_idx == idx and not r.is_exception
                  and r.value is (val if k == "value" else None), "the value wins at its index")
    elif k in ("exception", "timeout"):
        ctx.check(r.done() and r.result_idx == idx and bool(r.is_exception)
                  and r.value is exc, "the exception wins at its index")
    else:
        ctx.check(not r.done(), "a cancelled awaitable does not win")
        ctx.check(status == "exc" and got is exc, "cancellation passes through")
    ctx.cover(k)


def run(ctx):
    """__await__ and __run for any number of awaitables"""
    mod = load("aiomisc.utils", transform=ctx.sym)
    if not ctx.sym:
        return concrete(ctx)
    need(mod, "SelectAwaitable", "cancel_tasks", "SelectResult")
    need(mod.SelectAwaitable, "_SelectAwaitable__waiter")
    cancel = bool(ctx.choose(2, "cancel"))
    wait = bool(ctx.choose(2, "wait"))
    retexc = bool(ctx.choose(2, "return_exceptions"))
    n = ctx.int("n", 1)
    j = ctx.int("j", 0)
    ctx.assume(j < n)
    mine = object()

    class G:
        waited = 0
        tasks = None
        cancels = []
        awaited = []
    G.cancels, G.awaited = [], []

    class Task:
        def __init__(self, co):
            self.co = co

    class Pending:
        pass
    pend = Pending()

    def ensure_future(co, **kw):
        fr = getattr(co, "cr_frame", None)
        t = Task(co)
        if fr is None or co.cr_code.co_name not in ("__waiter",):
            raise core.Unsupported("another kind of task")
        t.locals = dict(fr.f_locals)
        co.close()
        return t
    outcome = {}

    async def fwait(tasks, timeout=None, return_when=None):
        G.waited += 1
        if not isinstance(tasks, SymSeq):
            raise core.Unsupported("wait for something else")
        G.tasks = tasks
        t = tasks.at(j)
        ctx.check(tasks.n == n, "all the awaitables are waited for")
        ctx.check(any(v is mine for v in t.locals.values()),
                  "each awaitable is waited for")
        ix = [v for k, v in t.locals.items() if isinstance(v, core.SymNum)
              or (isinstance(v, int) and not isinstance(v, bool))]
        ctx.check(len(ix) == 1 and (ix[0] == j), "each awaitable under its own index")
        ctx.check(return_when == asyncio.FIRST_COMPLETED, "the first one to finish decides")
        ctx.check(timeout is None, "without timeout there is no time limit")
        await Suspend("wait")
        return object(), pend

    class Cancelling:
        def __init__(self, what):
            self.what = what

        def __await__(self):
            yield Suspend("cancelling", self)
            G.awaited.append(self.what)

    def cancel_tasks(x):
        G.cancels.append(x)
        return Cancelling(x)
    mod.asyncio = NS(asyncio, wait=fwait, ensure_future=ensure_future)
    mod.cancel_tasks = cancel_tasks
    s = mod.SelectAwaitable.__new__(mod.SelectAwaitable)
    vc_call(s.__init__, ((True, SymSeq(n, lambda i: mine, "awaitables", j)),),
            cancel=cancel, wait=wait, return_exceptions=retexc)
    val = {"value": object(), "exception": Falsy("x"),
           "timeout": asyncio.TimeoutError()}
    st = {"cancelled": 0}

    def handler(q):
        if q.kind == "wait":
            k = outcome["k"] = ctx.pick(("value", "exception", "timeout", "cancelled"), "first")
            if k == "cancelled":
                st["cancelled"] += 1
                return Exc(asyncio.CancelledError())
            need(s, "_result")
            outcome["idx"] = ctx.int("winner", 0)
            s._result.set_result(outcome["idx"], val[k], k != "value")
            return Ret(None)
        if q.kind == "cancelling":
            if not st["cancelled"] and ctx.choose(2, "cancelled"):
                st["cancelled"] += 1
                return Exc(asyncio.CancelledError())
            if s._result.done():
                # the others may finish now
                s._result.set_result(ctx.int("late", 0), object(), bool(ctx.choose(2, "late exc")))
            return Ret(None)
        raise core.Unsupported(q.kind)
    status, got = drive(s, handler)
    ctx.check(G.waited == 1, "the awaitables are waited for once")
    k = outcome["k"]
    ctx.cover(k)
    if st["cancelled"]:
        ctx.check(status == "exc" and isinstance(got, asyncio.CancelledError),
                  "cancelling the select raises CancelledError")
        ctx.check(any(x is G.tasks for x in G.cancels), "cancelling the select cancels all")
        ctx.check(any(x is G.tasks for x in G.awaited), "a cancelled select waits for them")
        return
    if cancel:
        ctx.check(len(G.cancels) >= 1 and all(x is pend or x is G.tasks for x in G.cancels),
                  "the others are cancelled")
        if wait:
            ctx.check(len(G.awaited) == len(G.cancels),
                      "with wait the others are finished first")
    else:
        ctx.check(not G.cancels, "without cancel the others are left alone")
    if k == "value" or retexc:
        ctx.check(status == "ret" and got is s._result, "the result is returned")
    else:
        ctx.check(status == "exc" and got is val[k], "the exception of the winner is raised")
    r = s._result
    ctx.check(r.value is val[k] and r.result_idx is outcome["idx"]
              and bool(r.is_exception) == (k != "value"), "the result of the winner stays")


def concrete(ctx):
    import random
    fuzz(random.Random(ctx.choose(10 ** 6, "seed")))


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.utils")
    n = rng.choice((1, 2, 2, 3, 5))
    cancel, wait, retexc = (rng.random() < .6, rng.random() < .7, rng.random() < .5)

    async def main(loop):
        t0 = loop.time()
        ends, stop, running, aws, out = {}, {}, set(), [], {}

        async def body(i, d, kind, slow):
            running.add(i)
            try:
                if d:
                    await asyncio.sleep(d)
                ends[i] = loop.time()
                if kind == "exc":
                    raise out[i]
                if kind == "timeout":
                    raise out[i]
                return out[i]
            except asyncio.CancelledError:
                stop[i] = loop.time()
                if slow:
                    await asyncio.sleep(slow)
                raise
            finally:
                running.discard(i)
        delays = [rng.choice((0, 0, 1, 1, 2, rng.random() * 5)) for _ in range(n)]
        inner = []
        for i, d in enumerate(delays):
            kind = rng.choice(("value", "none", "exc", "timeout"))
            out[i] = {"value": object(), "none": rng.choice((None, 0, "", [])), "exc": rng.choice((Failed, Falsy))(i),
                      "timeout": asyncio.TimeoutError(i)}[kind]
            form = rng.choice(("coro", "task", "future", "obj"))
            if form == "future":
                f = loop.create_future()

                def fin(f=f, i=i, kind=kind):
                    if not f.done():
                        ends[i] = loop.time()
                        if kind in ("exc", "timeout"):
                            f.set_exception(out[i])
                        else:
                            f.set_result(out[i])
                if d == 0 and rng.random() < .5:
                    fin()
                else:
                    loop.call_later(d, fin)
                f.add_done_callback(lambda f: f.cancelled() or f.exception())
                aws.append(f)
                inner.append(f)
                continue
            c = body(i, d, kind, rng.choice((0, 0, 0, 3)))
            if form == "coro":
                aws.append(c)
                inner.append(None)
            elif form == "task":
                aws.append(loop.create_task(c))
                inner.append(aws[-1])
            else:
                class O:
                    def __init__(self, c):
                        self.c = c

                    def __await__(self):
                        return self.c.__await__()
                aws.append(O(c))
                inner.append(None)
        isexc = [isinstance(out[i], Exception) for i in range(n)]
        kill = rng.choice((None, None, None, 0, 1, rng.random() * 3))
        sel = mod.select(*aws, cancel=cancel, wait=wait, return_exceptions=retexc)
        task = loop.create_task(wrap(sel))
        if kill is not None:
            loop.call_later(kill, task.cancel)
        try:
            r = await task
            status = "ret"
        except asyncio.CancelledError:
            status, r = "cancelled", None
        except BaseException as e:
            status, r = "exc", e
        now = loop.time()
        if status == "cancelled":
            assert kill is not None, "cancelled by itself"
            assert not running, "awaitables are running after a cancelled select"
            for f in inner:
                assert f is None or f.done() , "awaitables are left after a cancelled select"
            return
        first = min(ends.values())
        if status == "exc":
            assert not retexc, "an exception is raised despite of return_exceptions"
            w = [i for i in range(n) if out[i] is r]
            assert w, "a foreign exception: %r" % r
            idx = w[0]
            if isinstance(r, asyncio.TimeoutError) and kill is not None and idx not in ends:
                return
        else:
            idx = r.result_idx
            assert r.done() and idx is not None, "no winner"
            assert r.value is out[idx], "wrong value"
            assert bool(r.is_exception) == isexc[idx], "is_exception is wrong"
            assert retexc or not isexc[idx], "the exception of the winner is not raised"
            exp = [out[i] if i == idx else None for i in range(n)]
            assert list(r) == exp and list(r) == exp, "values are at wrong places"
            assert len(r) == n, "wrong length"
            if isexc[idx]:
                try:
                    r.result()
                    raise AssertionError("result() does not raise")
                except (Failed, asyncio.TimeoutError) as e:
                    assert e is out[idx]
            else:
                assert r.result() is out[idx], "result() is wrong"
        assert idx in ends and ends[idx] == first, "a later one won"
        if cancel and wait:
            assert not running, "awaitables are running after select"
            for f in inner:
                assert f is None or f.done(), "awaitables are left after select"
        late = [i for i in range(n) if delays[i] > (first - t0) + 1e-6]
        snap = None if status != "ret" else (r.result_idx, r.value, r.is_exception)
        await asyncio.sleep(30)
        if cancel:
            for i in late:
                assert i not in ends, "a later awaitable was not cancelled"
            assert not running, "awaitables are running"
        else:
            assert not stop, "an awaitable was cancelled"
            for i in late:
                assert i in ends and ends[i] == t0 + delays[i], "a later awaitable is disturbed"
        if snap:
            assert snap == (r.result_idx, r.value, r.is_exception), "the result changed"

    async def wrap(s):
        return await s
    simloop.run(main)


HARNESSES = [("SelectResult", result), ("waiter", waiter), ("select", run)]
FUZZ = [("races", fuzz)]
FUZZ_S = 4
