"""C17: waiting for a coroutine from a thread (aiomisc.thread_pool)."""
import asyncio
import contextvars
import inspect
import threading

from pyvc import core, simthreads
from pyvc.aio import NS, Sink, close_coro, drive, Ret
from pyvc.load import load, need

ASSUME = ["call_soon_threadsafe runs each callback once in the loop's thread while the loop runs",
          "a task runs its coroutine once and calls its done callbacks once it is done",
          "the event loop runs until the coroutine has finished",
          "executions under a scheduler which preempts at every line are samples"]
CONTRACTS = ["wait_coroutine", "sync_wait_coroutine", "sync_await", "CoroutineWaiter"]


class Falsy(Exception):
    def __bool__(self):
        return False


class Fatal(BaseException):
    pass


OUT = [("ret", 5), ("ret", None), ("ret", ()), ("ret", ValueError("result")), ("exc", ValueError("x")), ("exc", Falsy()),
       ("exc", Fatal()), ("exc", asyncio.TimeoutError()), ("cancelled", None),
       ("exc", asyncio.InvalidStateError())]


def waiter(ctx):
    contextvars.copy_context().run(_waiter, ctx)


def _waiter(ctx):
    mod = load("aiomisc.thread_pool", transform=ctx.sym)
    need(mod, "wait_coroutine", "sync_wait_coroutine", "sync_await", "EVENT_LOOP", "threading")
    out = ctx.pick(OUT, "outcome")

    class G:
        soon, tasks, waits, ran = [], [], 0, False
        in_loop = False

    class Task:
        def __init__(self, coro):
            self.coro, self.cbs, self.state = coro, [], None

        def done(self):
            return self.state is not None

        def cancelled(self):
            return self.state is not None and self.state[0] == "cancelled"

        def result(self):
            if self.state is None:
                raise asyncio.InvalidStateError
            if self.state[0] == "ret":
                return self.state[1]
            raise asyncio.CancelledError if self.state[0] == "cancelled" else self.state[1]

        def exception(self):
            if self.state is None:
                raise asyncio.InvalidStateError
            if self.state[0] == "cancelled":
                raise asyncio.CancelledError
            return self.state[1] if self.state[0] == "exc" else None

        def add_done_callback(self, cb, context=None):
            self.cbs.append(cb)

    class Loop:
        def __init__(self, name):
            self.name = name

        def __bool__(self):
            return True

        def call_soon_threadsafe(self, cb, *args, context=None):
            ctx.check(self is loop, "the coroutine runs in the loop it is meant for")
            G.soon.append((cb, args))
            if ctx.choose(2, "the loop is faster"):
                turn()

        def create_task(self, coro, **kw):
            ctx.check(self is loop, "the coroutine runs in the loop it is meant for")
            ctx.check(G.in_loop, "tasks are created by the thread of the loop")
            t = Task(coro)
            G.tasks.append(t)
            return t

    def turn():
        """the loop runs everything"""
        G.in_loop = True
        todo, G.soon = G.soon, []
        for cb, args in todo:
            cb(*args)
        for t in G.tasks:
            if t.state is None:
                st = drive(t.coro, lambda q: Ret(None))
                if st[0] == "exc" and isinstance(st[1], asyncio.CancelledError):
                    st = ("cancelled", None)
                t.state = st
                for cb in t.cbs:
                    try:
                        cb(t)
                    except (core.PathEnd, core.Unsupported):
                        raise
                    except BaseException:
                        pass        # goes to the loop's exception handler
        G.in_loop = False

    class Ev:
        flag = False

        def set(self):
            self.flag = True

        def is_set(self):
            return self.flag

        def wait(self, timeout=None):
            if timeout is not None and ctx.choose(2, "the coroutine takes longer"):
                return self.flag
            n = 0
            while not self.flag:
                n += 1
                turn()
                ctx.check(self.flag or n < 3, "waiting for a finished coroutine ends")
            return True
    mod.threading = NS(threading, Event=Ev)
    how = ctx.pick(("wait", "wait loop", "sync", "sync loop", "await", "await awaitable"), "how")
    here, other = Loop("here"), Loop("other")
    loop = other if how in ("wait loop", "sync loop") else here
    runs = [0]
    a, k = (object(),), {"k": object()}

    async def coro(*aa, **kk):
        ctx.check(aa == a and kk == k, "the coroutine function gets its arguments")
        runs[0] += 1
        if out[0] == "ret":
            return out[1]
        raise asyncio.CancelledError if out[0] == "cancelled" else out[1]

    class Aw:
        def __await__(self):
            return coro(*a, **k).__await__()
    mod.EVENT_LOOP.set(here)
    try:
        if how == "wait":
            c = coro(*a, **k)
            r = mod.wait_coroutine(c)
        elif how == "wait loop":
            r = mod.wait_coroutine(coro(*a, **k), other)
        elif how == "sync":
            r = mod.sync_wait_coroutine(None, coro, *a, **k)
        elif how == "sync loop":
            r = mod.sync_wait_coroutine(other, coro, *a, **k)
        elif how == "await":
            r = mod.sync_await(coro, *a, **k)
        else:
            r = mod.sync_await(lambda *aa, **kk: Aw(), *a, **k)
        st = ("ret", r)
    except (core.PathEnd, core.Unsupported):
        raise
    except BaseException as e:
        if getattr(ctx, "dead", False) or isinstance(e, AssertionError):
            raise
        st = ("exc", e)
    ctx.check(runs[0] == 1, "the coroutine runs once", runs)
    ctx.check(len(G.tasks) == 1 and G.tasks[0].done(), "waiting lasts until the coroutine has finished")
    if out[0] == "cancelled":
        ctx.check(st[0] == "exc" and isinstance(st[1], asyncio.CancelledError),
                  "a cancelled coroutine is a CancelledError", st)
        ctx.cover("cancelled")
    else:
        ctx.check(st[0] == out[0] and st[1] is out[1], "the outcome is the coroutine's", (st, out))
        ctx.cover(out[0])


HARNESSES = [("waiter", waiter)]
_MOD = []


def fuzz(rng):
    """threads and a loop under the scheduler"""
    if not _MOD:
        _MOD.append(simthreads.load("aiomisc.thread_pool"))
    mod = _MOD[0]

    async def main(loop, sched):
        n = rng.randint(1, 4)
        got, runs, running = {}, {}, {}
        outs = {i: rng.choice(OUT) if rng.random() < 0.9 else ("outer", None) for i in range(n)}

        async def coro(i):
            assert asyncio.get_running_loop() is loop
            runs[i] = runs.get(i, 0) + 1
            running[i] = asyncio.current_task()
            await asyncio.sleep(rng.choice((0, 0, 0.01, 1)))
            o = outs[i]
            if o[0] == "outer":
                await asyncio.sleep(1000)
            if o[0] == "cancelled":
                raise asyncio.CancelledError
            if isinstance(o[1], Fatal):
                raise ValueError        # would end the loop itself
            if o[0] == "exc":
                raise o[1]
            return o[1]

        def thread(i, how, ctxv):
            def call():
                if how == 0:
                    return mod.sync_await(coro, i)
                if how == 1:
                    return mod.wait_coroutine(coro(i), loop)
                if how == 2:
                    return mod.sync_wait_coroutine(loop, coro, i)
                w = mod.CoroutineWaiter(coro(i), loop)
                w.start()
                simthreads.time.sleep(rng.choice((0, 1)))
                return w.wait()
            try:
                got[i] = ("ret", ctxv.run(call))
            except simthreads.Killed:
                raise
            except BaseException as e:
                got[i] = ("exc", e)
        mod.EVENT_LOOP.set(loop)
        for i in range(n):
            simthreads.Thread(target=thread, args=(i, rng.randrange(4), contextvars.copy_context())).start()
        for _ in range(400):
            await asyncio.sleep(0.05)
            for i, o in outs.items():
                if o[0] == "outer" and i in running and rng.random() < 0.3:
                    running[i].cancel()
            if len(got) == n:
                break
        assert len(got) == n, "a thread waits for ever"
        assert runs == {i: 1 for i in range(n)}, "a coroutine runs once"
        for i, o in outs.items():
            g = got[i]
            if o[0] in ("cancelled", "outer"):
                assert g[0] == "exc" and isinstance(g[1], asyncio.CancelledError), g
            elif isinstance(o[1], Fatal):
                assert isinstance(g[1], ValueError)
            else:
                assert g[0] == o[0] and g[1] is o[1], (g, o)
    simthreads.run(rng, main, [mod])


FUZZ = [("threads", fuzz)]
FUZZ_S = 4
