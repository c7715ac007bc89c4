"""C08: utils.pending_futures / set_exception / cancel_tasks."""
import asyncio

from pyvc import aio, core
from pyvc.aio import NS
from pyvc.core import conj, iff, implies
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["asyncio.gather(return_exceptions=True) completes when all its tasks are done "
          "and never raises because of them",
          "Task.cancel / Future.set_exception have no effect on other elements except that "
          "cancelling a task may complete the future it waits for"]
CONTRACTS = ["utils.pending_futures (collections of any size)",
             "utils.set_exception (collections of any size)",
             "utils.cancel_tasks (collections of any size)"]


class Elem:
    def __init__(self, ctx, mine, done):
        self.ctx, self.mine, self.d = ctx, mine, done
        self.cancels, self.excs = 0, []

    def done(self):
        return bool(self.d)

    def cancelled(self):
        return False


class FFuture(Elem):
    def set_exception(self, e):
        self.ctx.check(not self.d, "nothing that is done is touched")
        self.excs.append(e)
        self.d = True

    def cancel(self, *a, **kw):
        # a plain future is given the exception, cancelling would be as good
        self.ctx.check(not self.d, "nothing that is done is touched")
        self.excs.append(asyncio.CancelledError())
        self.d = True
        return True

    def set_result(self, v):
        self.ctx.fail("nothing but an exception is given to a future")


class FTask(FFuture):
    def set_exception(self, e):
        self.ctx.fail("a task is cancelled, not given an exception")

    def cancel(self, *a, **kw):
        self.ctx.check(not self.d, "nothing that is done is touched")
        self.cancels += 1
        if not self.mine:
            self.ctx.G.other = True
        return True

    def cancelling(self):
        # it may have been asked before, and may still be cleaning up
        if not hasattr(self, "asked"):
            self.asked = self.ctx.int("cancel requests before", 0)
        return self.asked + self.cancels

    def get_name(self):
        return "task"

    def get_coro(self):
        return None


class Foreign(Elem):
    def cancel(self, *a, **kw):
        self.ctx.fail("foreign objects are not touched")

    set_exception = set_result = cancel


class GSet(SymSeq):
    """the set of cancelled tasks: mine, and possibly others"""

    def __init__(self, *a):
        if a:
            raise core.Unsupported("set(iterable)")
        SymSeq.__init__(self, None, None, "cancelled")
        self.has, self.others = False, False
        cur = core.CURRENT
        cur.G.sets.append(self)

    def add(self, x):
        if not isinstance(x, Elem):
            raise core.Unsupported("another kind of element")
        if x.mine:
            self.has = True
        else:
            self.others = True

    def __contains__(self, x):
        raise core.Unsupported("membership")

    def __bool__(self):
        return bool(self.has) or bool(self.others)


class G:
    pass


KINDS = (("task", FTask), ("future", FFuture), ("foreign", Foreign))


def setup(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "pending_futures", "set_exception", "cancel_tasks")
    g = ctx.G = G()
    g.sets, g.other, g.gathered = [], False, None
    mod.log = aio.Sink()
    name, cls = ctx.pick(KINDS, "kind")
    g.kind = name
    g.mine = mine = cls(ctx, True, ctx.choose(2, "done"))
    g.was_done = bool(mine.d)
    n = ctx.int("n", 0)
    j = ctx.int("j", 0)
    ctx.assume(j < n)

    def other():
        return ctx.pick(KINDS, "other kind")[1](ctx, False, ctx.choose(2, "other done"))

    def havoc(c):
        g.other = c.bool("other")
        for s in g.sets:
            s.others = g.other
        if c.iter_index != 0 and name == "future" and not mine.d \
                and g.phase_before(c) and c.choose(2, "completed meanwhile"):
            # an earlier element waited for it
            mine.d = True
            g.was_done = True

    def inv(c):
        return [(conj(*[iff(s.others, g.other) for s in g.sets] or [True]),
                 "the tasks collected are the tasks cancelled")]
    g.phase_before = lambda c: not mine.excs and c.iter_index is j
    ctx.loops = {("for",): Cut(havoc, inv, obj=lambda c, nm, v: v)}
    seq = SymSeq(n, lambda i: mine, "futures", j, other)
    mod.__dict__["set"] = GSet
    return mod, g, seq


def after(ctx, g, exc=None, res=None):
    m = g.mine
    if g.was_done:
        ctx.check(not m.cancels and not m.excs, "nothing that is done is touched")
    elif g.kind == "task":
        ctx.check(m.cancels == 1, "every pending task is cancelled once")
    elif g.kind == "future":
        ctx.check(len(m.excs) == 1, "every pending future gets the exception")
        if exc is not None:
            ctx.check(m.excs[0] is exc, "a future gets the given exception")
        else:
            ctx.check(isinstance(m.excs[0], asyncio.CancelledError),
                      "a future gets CancelledError")


def set_exception(ctx):
    if not ctx.sym:
        return concrete(ctx, True)
    mod, g, seq = setup(ctx)
    mod.asyncio = NS(asyncio, Task=FTask, Future=FFuture)
    exc = ValueError("x")
    try:
        res = mod.set_exception(seq, exc)
    except Exception as e:
        ctx.fail("set_exception does not raise", repr(e))
        return
    after(ctx, g, exc)
    if not isinstance(res, GSet):
        raise core.Unsupported("result of another kind")
    ctx.check(res.has == (g.kind == "task" and not g.was_done),
              "exactly the cancelled tasks are returned")
    ctx.check(iff(res.others, g.other), "exactly the cancelled tasks are returned")
    ctx.cover("%s %s" % (g.kind, "done" if g.was_done else "pending"))


def cancel_tasks(ctx):
    if not ctx.sym:
        return concrete(ctx, False)
    mod, g, seq = setup(ctx)

    class Fut:
        def __init__(self):
            self.state = None

        def set_result(self, v):
            self.state = True

    class L:
        def create_future(self):
            return Fut()

    class W:
        pass

    class Gather:
        def __vc_symcall__(self, s, return_exceptions=False):
            w = W()
            w.s, w.re = s, return_exceptions
            return w

        def __call__(self, *a, **kw):
            raise core.Unsupported("gather of a list")
    mod.asyncio = NS(asyncio, Task=FTask, Future=FFuture, gather=Gather(),
                     get_event_loop=L, get_running_loop=L,
                     ensure_future=lambda x, **kw: x)
    try:
        res = mod.cancel_tasks(seq)
    except Exception as e:
        ctx.fail("cancel_tasks does not raise", repr(e))
        return
    after(ctx, g)
    mine = g.kind == "task" and not g.was_done
    if isinstance(res, Fut):
        ctx.cover("nothing to wait for")
        ctx.check(res.state, "with nothing to wait for the result is complete")
        ctx.check(not mine, "the result waits for every cancelled task")
        ctx.check(core.negate(g.other), "the result waits for every cancelled task")
    elif isinstance(res, W):
        ctx.cover("waits")
        if not isinstance(res.s, GSet):
            raise core.Unsupported("gather of something else")
        ctx.check(res.s.has == mine, "the result waits for every cancelled task and no other")
        ctx.check(iff(res.s.others, g.other), "the result waits for every cancelled task")
        ctx.check(res.re, "the result does not fail with the tasks")
    else:
        raise core.Unsupported("result of another kind")


def concrete(ctx, setexc):
    """mixtures of up to five elements on the real loop"""
    from pyvc import simloop
    mod = load("aiomisc.utils", transform=False)
    kinds = [ctx.choose(5, "kind") for _ in range(ctx.choose(6, "n"))]

    async def main(loop):
        els = []
        for k in kinds:
            if k == 0:
                els.append(loop.create_task(asyncio.sleep(5)))
            elif k == 1:
                els.append(loop.create_task(asyncio.sleep(0)))
            elif k == 2:
                els.append(loop.create_future())
            elif k == 3:
                f = loop.create_future()
                f.set_result(1)
                els.append(f)
            else:
                els.append(Foreign(ctx, False, False))
        await asyncio.sleep(1)
        exc = ValueError("x")
        if setexc:
            r = mod.set_exception(els, exc)
            ctx.check(set(r) == {e for e, k in zip(els, kinds) if k == 0},
                      "exactly the cancelled tasks are returned")
            await asyncio.sleep(1)
        else:
            try:
                await mod.cancel_tasks(els)
            except BaseException as e:
                ctx.fail("the result does not fail with the tasks", repr(e))
            exc = None
        for e, k in zip(els, kinds):
            if k == 0:
                ctx.check(e.cancelled(), "every pending task is cancelled once")
            elif k == 2:
                ctx.check(e.done(), "every pending future gets the exception")
                if exc:
                    ctx.check(e.exception() is exc, "a future gets the given exception")
            elif k in (1, 3):
                ctx.check(not e.cancelled() and e.exception() is None,
                          "nothing that is done is touched")
    simloop.run(main)


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.utils")

    async def main(loop):
        reqs, live = {}, []

        class T(asyncio.Task):
            def cancel(self, *a, **kw):
                reqs[id(self)] = reqs.get(id(self), 0) + 1
                if live:
                    live[0].discard(self)
                return super().cancel(*a, **kw)

        class Odd:
            def done(self):
                return False

            def __getattr__(self, n):
                raise AssertionError("foreign object touched: " + n)

        futs = [loop.create_future() for _ in range(rng.randint(0, 3))]

        async def body(kind, d):
            try:
                if kind == "waits" and futs:
                    await rng.choice(futs)
                elif kind == "quick":
                    return 5
                elif kind == "fails":
                    raise ValueError("f")
                else:
                    await asyncio.sleep(1e5)
            except asyncio.CancelledError:
                if kind == "slow":
                    await asyncio.sleep(d)
                    raise
                if kind == "swallow":
                    end = loop.time() + d
                    while loop.time() < end:
                        try:
                            await asyncio.sleep(end - loop.time())
                        except asyncio.CancelledError:
                            pass
                    return 7
                if kind == "raise":
                    raise KeyError("on cancel")
                raise
        tasks, els = [], []
        for _ in range(rng.randint(0, 6)):
            k = rng.choice(("waits", "quick", "fails", "plain", "slow", "swallow", "raise"))
            t = T(body(k, rng.randint(0, 50)), loop=loop)
            t.kind = k
            tasks.append(t)
        for f in futs:
            if rng.random() < .3:
                f.set_result(1) if rng.random() < .5 else f.cancel()
        if rng.random() < .8:
            await asyncio.sleep(1)
        for t in tasks:
            if rng.random() < .15:
                # already asked to cancel, maybe still cleaning up
                asyncio.Task.cancel(t)
        if rng.random() < .5:
            await asyncio.sleep(rng.choice((0, 0, 5)))
        given = [t for t in tasks if rng.random() < .7]
        gf = [f for f in futs if rng.random() < .7]
        els = given + gf + [Odd() for _ in range(rng.choice((0, 0, 1, 2)))]
        rng.shuffle(els)
        kind = rng.choice(("list", "set", "gen", "tuple", "live", "dup"))
        if kind == "dup":
            els = els + [rng.choice(els) for _ in range(2)] if els else els
        coll = {"list": lambda: els, "set": lambda: set(els), "tuple": lambda: tuple(els),
                "gen": lambda: (e for e in els), "live": lambda: set(els),
                "dup": lambda: els}[kind]()
        if kind == "live":
            live.append(coll)
            for e in els:
                if isinstance(e, asyncio.Future):
                    e.add_done_callback(coll.discard)
        before = {id(e): e.done() for e in els if isinstance(e, asyncio.Future)}
        alltasks = {t: t.done() for t in tasks}
        allf = {f: f.done() for f in futs}
        states = {e: (e.cancelled(), None if e.cancelled() else (e.exception() or e.result()))
                  for e in els if isinstance(e, asyncio.Future) and e.done()}
        exc = None
        reqs.clear()
        if rng.random() < .3:
            exc = ValueError("given")
            r = mod.set_exception(coll, exc)
            assert set(r) == {t for t in given if not before[id(t)]}, "wrong result set"
            fut = asyncio.gather(*r, return_exceptions=True)
        else:
            fut = mod.cancel_tasks(coll)
        for f in gf:
            assert f.done(), "a pending future is left"
        pend = [t for t in given if not before[id(t)]]
        for t in pend:
            assert reqs.get(id(t)), "a pending task is not cancelled"
            assert kind == "dup" or reqs[id(t)] == 1, "cancelled more than once"
        for t in tasks:
            if t not in pend:
                assert not reqs.get(id(t)), "a task is cancelled which must not be"
        done_at = {}
        for t in pend:
            t.add_done_callback(lambda t: done_at.__setitem__(id(t), 1))
        try:
            await fut
        except BaseException as e:
            raise AssertionError("awaiting the result raised %r" % e)
        for t in pend:
            assert t.done(), "complete before a cancelled task is done"
        for e, (c, v) in states.items():
            assert e.cancelled() == c and (c or (e.exception() or e.result()) is v or
                                           (e.exception() or e.result()) == v), "done, but changed"
        for f in gf:
            if not before[id(f)]:
                if f.cancelled():
                    # through the task which was waiting for it
                    assert any(t.kind == "waits" for t in pend) or exc is None
                elif exc is None:
                    assert isinstance(f.exception(), asyncio.CancelledError), "wrong exception"
                else:
                    assert f.exception() is exc, "wrong exception"
        waits = any(t.kind == "waits" for t in pend)
        for f, d in allf.items():
            if f not in gf and not d and not waits:
                assert not f.done(), "a future which was not given is touched"
        for f in futs:
            if f.done() and not f.cancelled():
                f.exception()
    simloop.run(main)


HARNESSES = [("set_exception", set_exception), ("cancel_tasks", cancel_tasks)]
FUZZ = [("mixtures", fuzz)]
FUZZ_S = 3
