"""Contracts of aiomisc.aggregate, shared by C01 and C02."""
import asyncio

from pyvc import aio, core
from pyvc.aio import Exc, Ret, Suspend, WaitFor, drive
from pyvc.core import conj, disj, implies
from pyvc.load import Cut, SymSeq, load, need


class Boom(Exception):
    pass


class AbsList:
    """a list of which only the length and what is appended matters"""

    def __init__(self, n):
        self.n0 = n
        self.n = n
        self.added = []         # (position, object)

    def append(self, x):
        self.added.append((self.n, x))
        self.n = self.n + 1

    def __vc_len__(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __bool__(self):
        return bool(self.n > 0)


class FakeFuture:
    def __init__(self, done=None):
        self.state = done           # None | ("val", v) | ("exc", e)
        self.writes = 0

    def done(self):
        return self.state is not None

    def cancelled(self):
        return False

    def set_result(self, v):
        if self.done():
            raise asyncio.InvalidStateError("set twice")
        self.state = ("val", v)
        self.writes += 1

    def set_exception(self, e):
        if self.done():
            raise asyncio.InvalidStateError("set twice")
        self.state = ("exc", e() if isinstance(e, type) else e)
        self.writes += 1

    def result(self):
        if self.state is None:
            raise asyncio.InvalidStateError("not set")
        if self.state[0] == "exc":
            raise self.state[1]
        return self.state[1]

    def exception(self):
        if self.state is None:
            raise asyncio.InvalidStateError("not set")
        return self.state[1] if self.state[0] == "exc" else None

    def __await__(self):
        if self.state is None:
            yield Suspend("future", self)
        return self.result()


class FakeEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True

    def wait(self):
        ev = self

        class W:
            def __await__(self):
                if not ev.flag:
                    yield Suspend("event", ev)
                return True

            def vc_done(self):
                return ev.flag
        return W()


class FakeLock:
    def __init__(self):
        self.held = False

    async def acquire(self):
        await Suspend("lock", self)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release of a lock not held")
        self.held = False

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


def mod_with_fakes(ctx, loop):
    mod = load("aiomisc.aggregate", transform=ctx.sym)
    need(mod, "wait_for", "Event", "Lock", "Future")
    mod.wait_for = lambda aw, timeout=None: WaitFor(aw, timeout, loop.time)
    mod.Event, mod.Lock, mod.Future = FakeEvent, FakeLock, FakeFuture
    mod.log = aio.Sink()
    return mod


def aggregate_contract(ctx):
    """one call of aggregate() against any number of other callers"""
    now0 = ctx.real("now", 0)
    loop = aio.Loop(ctx, now0)
    mod = mod_with_fakes(ctx, loop)
    leeway_ms = ctx.real("leeway_ms", 0)
    ctx.assume(leeway_ms > 0)
    leeway = leeway_ms / 1000
    max_count = None
    if ctx.choose(2, "max_count given"):
        max_count = ctx.int("max_count", 1)
    need(mod.AggregatorAsync, "_execute", "aggregate", "_clear")

    class G:
        executed = 0
        cancelled = False
        own = None

    class Agg(mod.AggregatorAsync):
        async def _execute(self, *, args, futures):
            # contract of _execute (proved separately): on return every
            # future of the batch is done; cancellation passes through
            ctx.check(args is B["args"] and futures is B["futures"],
                      "the caller's own batch is executed")
            ctx.check(B["lock"].held, "executions of one batch exclude each other")
            ctx.check(not own().done(), "no execution once the result is there")
            ctx.check(self._args is not B["args"],
                      "nobody can join a batch which is executed")
            ctx.check(not G.executed, "a caller executes its batch at most once")
            if max_count is not None:
                ctx.check(B["args"].n <= max_count, "a batch holds at most max_count")
            G.executed += 1
            await Suspend("execute")
            r = ctx.pick(("results", "exceptions", "partly, cancelled", "cancelled"),
                         "execution")
            if r == "results":
                own().set_result(ctx.opaque("result"))
            elif r == "exceptions":
                own().set_exception(Boom("batch"))
            else:
                if r == "partly, cancelled":
                    own().set_result(ctx.opaque("result"))
                G.cancelled = True
                raise asyncio.CancelledError

    async def func(*args):
        raise AssertionError

    a = Agg(func, leeway_ms=leeway_ms, max_count=max_count)
    need(a, "_args", "_futures", "_event", "_lock", "_first_call_at", "_leeway")
    a._loop = loop
    n0 = ctx.int("collected", 0)
    if max_count is not None:
        ctx.assume(n0 < max_count)
    # the invariant of a batch which is still collected
    B = {"args": AbsList(n0), "futures": AbsList(n0), "event": FakeEvent(),
         "lock": FakeLock()}
    a._args, a._futures = B["args"], B["futures"]
    a._event, a._lock = B["event"], B["lock"]
    if n0 > 0:
        first = ctx.real("first_call_at", 0)
        ctx.assume(first <= now0)
        a._first_call_at = first
    else:
        a._first_call_at = None
        first = now0
    arg = ctx.opaque("arg")
    st = {"replaced": None, "after_wait": None}

    def own():
        return B["futures"].added[0][1]

    def joined():
        ctx.check([x for _, x in B["args"].added] == [arg],
                  "the argument joins the current batch once")
        ctx.check(len(B["futures"].added) == 1, "one future per argument")
        ctx.check(conj(B["args"].added[0][0] == n0, B["futures"].added[0][0] == n0),
                  "result position = arrival position")

    def fresh_batch():
        ctx.check(a._args is not B["args"] and a._futures is not B["futures"]
                  and a._event is not B["event"] and a._lock is not B["lock"],
                  "a closed batch shares nothing with the next one")

    def invariant(name):
        """what other callers may rely on whenever this caller is suspended"""
        if a._args is B["args"]:
            ctx.check(a._futures is B["futures"] and a._event is B["event"]
                      and a._lock is B["lock"], name + ": batch state is consistent")
            ctx.check(a._first_call_at is not None and True, name + ": first call time is known")
            ctx.check(a._first_call_at == first, name + ": leeway counts from the first argument")
            ctx.check(not B["event"].flag, name + ": a collected batch is not full")
            if max_count is not None:
                ctx.check(B["args"].n < max_count, name + ": a collected batch is not full (2)")
        else:
            fresh_batch()
            if st["replaced"] is None:
                ctx.check(len(a._args) == 0 and len(a._futures) == 0
                          and a._first_call_at is None and not a._event.is_set(),
                          name + ": the next batch starts empty")
            else:
                ctx.check(a._args is st["replaced"][0] and a._futures is st["replaced"][1]
                          and a._event is st["replaced"][2]
                          and a._first_call_at is st["replaced"][3]
                          and len(a._args) == st["replaced"][4],
                          name + ": the next batch is not touched")

    def others(full_only=False):
        """rely: other callers join, fill or start this batch"""
        if a._args is not B["args"]:
            return
        k = ctx.pick(("join", "filled", "started"), "others")
        m = ctx.int("joined", 0)
        for l in (B["args"], B["futures"]):
            l.n = l.n + m
        if k == "filled":
            ctx.assume(m > 0)
            if max_count is None:
                raise core.PathEnd
            ctx.assume(B["args"].n == max_count)
            B["event"].flag = True
        elif max_count is not None:
            ctx.assume(B["args"].n < max_count)
        if k == "started":
            ctx.assume(loop.now >= first + leeway)
        if k != "join":
            mod.AggregatorAsync._clear(a)
            if ctx.choose(2, "next batch is used"):
                a._args.append("other")
                a._futures.append(FakeFuture())
                a._first_call_at = loop.now
            st["replaced"] = (a._args, a._futures, a._event, a._first_call_at, len(a._args))

    def handler(req):
        joined()
        invariant(req.kind)
        if req.kind == "event":
            sc = aio.scopes()
            ctx.check(req.args[0] is B["event"], "waits for its own batch")
            ctx.check(len(sc) == 1 and sc[0].timeout is not None,
                      "the collection is limited in time")
            ctx.check(sc[0].limit == first + leeway,
                      "the batch starts leeway after its first argument")
            ctx.cover("collecting")
            loop.advance()
            others()
            k = ctx.pick(("woken", "timeout", "cancelled"), "wait ends")
            if k == "woken":
                if not B["event"].flag:
                    raise core.PathEnd
                return Ret(True)
            if k == "timeout":
                ctx.assume(loop.now >= sc[0].limit)
                return aio.expire(sc[0])
            G.cancelled = True
            return Exc(asyncio.CancelledError())
        if req.kind == "lock":
            ctx.check(req.args[0] is B["lock"], "locks its own batch")
            ctx.check(a._args is not B["args"], "the batch is closed before it is executed")
            full = max_count is not None and B["args"].n == max_count
            if full:
                ctx.cover("full batch")
            else:
                ctx.cover("leeway elapsed")
                ctx.check(loop.now >= first + leeway,
                          "a batch which is not full runs only after leeway")
            if own() is B["futures"].added[0][1] and max_count is not None:
                # filled by this very call: no waiting
                if n0 + 1 == max_count:
                    ctx.check(loop.now == now0, "the filling call does not wait")
            loop.advance()
            k = ctx.pick(("first", "after another execution", "cancelled"), "lock")
            if k == "cancelled":
                G.cancelled = True
                return Exc(asyncio.CancelledError())
            if k == "after another execution":
                r = ctx.pick(("cancelled", "value", "exception"), "other execution")
                if r == "value":
                    own().set_result(ctx.opaque("result"))
                elif r == "exception":
                    own().set_exception(Boom("batch"))
            return Ret(None)
        if req.kind == "execute":
            return Ret(None)
        if req.kind == "future":
            ctx.check(False, "no caller waits for a result nobody will set",
                      "waits after the execution of its batch")
        raise core.Unsupported("await on " + req.kind)

    status, got = drive(a.aggregate(arg), handler)
    joined()
    # n0 + 1 is the first of the batch: its deadline may already be over
    invariant("at the end")
    if status == "exc" and isinstance(got, asyncio.CancelledError):
        ctx.check(G.cancelled, "CancelledError only when cancelled")
        ctx.cover("cancelled")
    else:
        ctx.check(not G.cancelled, "cancellation is not swallowed")
        ctx.check(own().done(), "a caller returns only with its own result")
        kind, v = own().state
        ctx.check((status, got) == ({"val": "ret", "exc": "exc"}[kind], v)
                  and got is v, "the caller gets what was set for its argument")
        ctx.cover("result" if kind == "val" else "exception")
    ctx.check(not B["lock"].held, "the batch lock is released")


def execute_contract(ctx):
    """_execute: all futures of the batch are done afterwards; any number"""
    loop = aio.Loop(ctx, ctx.real("now", 0))
    mod = mod_with_fakes(ctx, loop)
    need(mod.AggregatorAsync, "_execute")
    if ctx.sym:
        n = ctx.int("n", 1)
        j = ctx.int("j", 0)
        ctx.assume(j < n)
    else:
        n = ctx.choose(5, "n") + 1
        j = ctx.choose(n, "j")
    wf = FakeFuture()
    mine = ctx.opaque("my argument")

    def other():
        return FakeFuture(("val", 1) if ctx.choose(2, "other done") else None)
    if ctx.sym:
        args = SymSeq(n, lambda i: mine, "args", j,
                      lambda: ctx.opaque("arg"))
        futures = SymSeq(n, lambda i: wf, "futures", j, other)
    else:
        args = [mine if i == j else object() for i in range(n)]
        futures = [wf if i == j else other() for i in range(n)]
    state0 = ctx.pick((None, ("val", "old"), ("exc", Boom("old"))), "already done")
    wf.state = state0
    got = []
    boom = Boom("func")

    class Func:
        def __vc_symcall__(self, seq):
            got.append(seq)
            return self.run(seq.at(j))

        def __call__(self, *a):
            got.append(a)
            return self.run(a[j])

        async def run(self, mine_arg):
            ctx.check(mine_arg.value is mine and mine_arg.future is wf,
                      "argument and future of one caller stay together")
            await Suspend("func")
            if not wf.done():
                k = ctx.pick(("nothing", "result", "exception"), "func sets")
                if k == "result":
                    wf.set_result("new")
                elif k == "exception":
                    wf.set_exception(Boom("own"))
            self.state = wf.state
            self.k = ctx.pick(("returns", "raises", "cancelled"), "func")
            if self.k == "raises":
                raise boom
            if self.k == "cancelled":
                raise asyncio.CancelledError

    async def f(*args):
        pass
    a = mod.AggregatorAsync(f, leeway_ms=1)
    need(a, "_func")
    a._func = func = Func()
    status, r = drive(a._execute(args=args, futures=futures), lambda q: Ret(None))
    ctx.check(len(got) == 1, "the function is called once")
    ctx.check((len(got[0]) if not ctx.sym else got[0].n) == n,
              "the function gets every argument of the batch")
    ctx.cover(func.k)
    if func.k == "cancelled":
        ctx.check(status == "exc" and isinstance(r, asyncio.CancelledError),
                  "cancellation of an execution passes through")
        ctx.check(wf.state is func.state, "cancellation sets no results")
        return
    ctx.check(status == "ret", "failures are reported through the futures")
    ctx.check(wf.done(), "every future is done after an execution")
    if func.state is not None:
        ctx.check(wf.state is func.state, "results set by the function are kept")
    elif func.k == "raises":
        ctx.check(wf.state[1] is boom, "callers without a result get the exception")
    else:
        ctx.check(isinstance(wf.state[1], mod.ResultNotSetError),
                  "a result neither set nor returned is ResultNotSetError")


def pairing_contract(ctx):
    """_to_async_aggregate: the i-th result goes to the i-th argument"""
    loop = aio.Loop(ctx, 0)
    mod = mod_with_fakes(ctx, loop)
    need(mod, "_to_async_aggregate", "Arg")
    if ctx.sym:
        n = ctx.int("n", 1)
        m = ctx.int("results", 0)
        j = ctx.int("j", 0)
        ctx.assume(j < n)
    else:
        n = ctx.choose(5, "n") + 1
        m = ctx.choose(6, "results")
        j = ctx.choose(n, "j")
    wf = FakeFuture()
    mine = ctx.opaque("mine")
    w = mod.Arg(value=mine, future=wf)

    def other():
        return mod.Arg(value=ctx.opaque("o"), future=FakeFuture(
            ("val", 1) if ctx.choose(2, "other done") else None))
    res = ctx.opaque("my result")
    state0 = ctx.pick((None, ("val", "old")), "already done")
    wf.state = state0
    if ctx.sym:
        args = SymSeq(n, lambda i: w, "args", j, other)
        results = SymSeq(m, lambda i: res, "results", j,
                         lambda: ctx.opaque("res"))
    else:
        args = [w if i == j else other() for i in range(n)]
        results = iter([res if i == j else object() for i in range(m)])
    boom = Boom("f")

    class F:
        __name__ = "f"

        def __vc_symcall__(self, seq):
            return self.run(seq.at(j))

        def __call__(self, *a):
            return self.run(a[j])

        async def run(self, x):
            ctx.check(x is mine, "arguments are passed in order of arrival")
            await Suspend("f")
            self.k = ctx.choose(2, "raises")
            if self.k:
                raise boom
            return results
    f = F()
    wrapper = mod._to_async_aggregate(f)
    if ctx.sym:
        from pyvc.load import vc_call
        co = vc_call(wrapper, ((True, args),))
    else:
        co = wrapper(*args)
    status, r = drive(co, lambda q: Ret(None))
    if f.k:
        ctx.check(status == "exc" and r is boom, "the exception of the function passes")
        ctx.check(wf.state is state0, "a failing function sets nothing")
        return
    ctx.check(status == "ret", "results are distributed without error")
    if state0 is not None:
        ctx.check(wf.state is state0, "a result set before is kept")
    elif j < m:
        ctx.cover("paired")
        ctx.check(wf.done() and wf.state[1] is res, "the i-th result is for the i-th caller")
    else:
        ctx.check(not wf.done(), "a missing result is not made up")


# ------------------------------------------------------------- executions

class Partial(Exception):
    pass


def fuzz(rng, fail=0.0, cancel=0.0):
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.aggregate")

    async def main(loop):
        leeway = rng.choice((10, 50, 100, 1000))
        maxc = rng.choice((None, 1, 2, 3, 5, 10))
        lazy = rng.random() < 0.4       # aggregate_async
        n = rng.randint(1, 16)
        runs = []       # dict(args, start, end, how)
        arrived = {}
        order = []
        outcome = {}
        killed = {}     # caller -> time
        expected = {}
        unit = leeway / 1000
        plans = [rng.random() < fail for _ in range(60)]
        durs = [rng.choice((0, 0, unit / 2, unit, unit * 3)) for _ in range(60)]

        async def body(vals, futs):
            run = dict(args=vals, start=loop.time(), end=None, how=None)
            for r in runs:
                if r["args"] == vals:
                    assert r["end"] is not None, "executions of one batch overlap"
                    assert r["how"] == "cancelled", \
                        "the batch is run again after it %s" % r["how"]
            i = len(runs)
            runs.append(run)
            try:
                if futs and rng.random() < 0.3:
                    # set some before suspending
                    for v, f in zip(vals, futs):
                        if rng.random() < 0.5 and not f.done():
                            f.set_result(("early", v))
                            expected[v] = ("ret", ("early", v))
                if durs[i % 60]:
                    await asyncio.sleep(durs[i % 60])
                if plans[i % 60]:
                    run["exc"] = Boom(i)
                    raise run["exc"]
                if futs:
                    for v, f in zip(vals, futs):
                        if f.done():
                            continue
                        k = rng.random()
                        if k < 0.15 and fail:
                            expected[v] = ("exc", mod.ResultNotSetError)
                        elif k < 0.3 and fail:
                            e = Partial(v)
                            f.set_exception(e)
                            expected[v] = ("exc", e)
                        else:
                            f.set_result((v, i))
                            expected[v] = ("ret", (v, i))
                    run["how"] = "ok"
                    return None
                short = len(vals)
                if fail and rng.random() < 0.2:
                    short = rng.randint(0, len(vals))
                for k, v in enumerate(vals):
                    expected[v] = ("ret", (v, i)) if k < short else ("exc", mod.ResultNotSetError)
                run["how"] = "ok"
                res = [(v, i) for v in vals[:short]]
                return rng.choice((list, tuple, iter))(res)
            except asyncio.CancelledError:
                run["how"] = "cancelled"
                raise
            except Boom as e:
                run["how"] = "failed"
                for k, v in enumerate(vals):
                    if not futs or not futs[k].done():
                        expected[v] = ("exc", e)
                raise
            finally:
                run["end"] = loop.time()

        if lazy:
            @mod.aggregate_async(leeway_ms=leeway, max_count=maxc)
            async def call(*args):
                await body([a.value for a in args], [a.future for a in args])
        else:
            @mod.aggregate(leeway_ms=leeway, max_count=maxc)
            async def call(*args):
                return await body(list(args), None)

        async def caller(i, delay):
            if delay:
                await asyncio.sleep(delay)
            arrived[i] = loop.time()
            order.append(i)
            try:
                outcome[i] = ("ret", await call(i))
            except BaseException as e:
                outcome[i] = ("exc", e)
                if isinstance(e, asyncio.CancelledError):
                    raise

        step = rng.choice((0, unit / 4, unit / 2, unit, unit * 2.5))
        t = 0.0
        tasks = []
        for i in range(n):
            if rng.random() < 0.6:
                t += rng.choice((step, step, step * rng.random()))
            tasks.append(loop.create_task(caller(i, t)))

        async def killer(i, d):
            await asyncio.sleep(d)
            for _ in range(rng.randint(0, 3)):
                await asyncio.sleep(0)
            if i in arrived and not tasks[i].done() and i not in outcome:
                killed[i] = loop.time()
                tasks[i].cancel()
        kills = []
        if cancel:
            for i in range(n):
                if rng.random() < cancel:
                    kills.append(loop.create_task(killer(
                        i, rng.choice((rng.random() * (t + unit * 2), t * rng.random(), unit, unit / 2)))))
        await asyncio.gather(*tasks, *kills, return_exceptions=True)

        eps = 1e-6
        batches = []
        for r in runs:
            if r["args"] not in batches:
                batches.append(r["args"])
        seen = {}
        pos = {v: k for k, v in enumerate(order)}
        for b in batches:
            assert b, "empty batch"
            assert maxc is None or len(b) <= maxc, "batch of %d, max_count %r" % (len(b), maxc)
            assert [pos[v] for v in b] == sorted(pos[v] for v in b), "arrival order"
            for v in b:
                assert v not in seen, "argument %r is in two batches" % v
                seen[v] = b
            rr = [r for r in runs if r["args"] == b]
            start = rr[0]["start"]
            first = arrived[b[0]]
            limit = first + unit
            assert max(arrived[v] for v in b) <= start + eps, "joined a started batch"
            full = maxc is not None and len(b) == maxc
            if not full:
                assert start >= limit - eps, "batch of %d started %.3f early" % (len(b), limit - start)
            # somebody alive to run it in time?
            alive = [v for v in b if v not in killed or killed[v] > limit + eps]
            when = arrived[b[-1]] if full else limit
            when_alive = [v for v in b if arrived[v] <= when and (
                v not in killed or killed[v] > when + eps)]
            if when_alive and (not full or b[-1] in when_alive):
                assert start <= when + eps, "batch started %.3f late" % (start - when)
        for i in range(n):
            o = outcome.get(i)
            assert o is not None or i in killed or i not in arrived, "caller %d has no outcome" % i
            if o is None:
                continue
            if o[0] == "exc" and isinstance(o[1], asyncio.CancelledError):
                assert i in killed, "caller %d was not cancelled" % i
                continue
            if i in killed:
                # it may have had its result already; never the wrong one
                pass
            assert i in seen, "argument %d was never handed over" % i
            e = expected[i]
            if e[0] == "ret":
                assert o == e, "caller %d got %r, expected %r" % (i, o, e)
            elif isinstance(e[1], type):
                assert o[0] == "exc" and isinstance(o[1], e[1]), "caller %d got %r" % (i, o)
            else:
                assert o[0] == "exc" and o[1] is e[1], "caller %d got %r, expected %r" % (i, o, e)
        # consecutive batches of the arrival order
        flat = [v for b in batches for v in b]
        for i in range(n):
            if i in arrived and i not in seen:
                assert i in killed, "argument %d was dropped" % i
    simloop.run(main)


def fuzz_ok(rng):
    fuzz(rng, 0.0, rng.choice((0, 0, 0.2)))


def fuzz_fail(rng):
    fuzz(rng, rng.choice((0.0, 0.3, 0.7)), rng.choice((0, 0.2, 0.5, 0.8)))
