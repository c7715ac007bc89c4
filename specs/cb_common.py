"""Contracts of aiomisc.circuit_breaker, shared by C04 and C05."""
from collections import Counter, deque

from pyvc import aio, core
from pyvc.core import conj, disj, iff, implies, negate
from pyvc.load import Cut, load


class Listed(Exception):
    pass


class ListedChild(Listed):
    pass


class Unlisted(Exception):
    pass


class Fatal(BaseException):
    pass


class FakeStatistic:
    """the bucket window: only its length matters to the transition"""

    def __init__(self, n):
        self.n = n
        self.cleared = 0
        self.maxlen = 10

    def __vc_len__(self):
        return 0 if self.cleared else self.n

    def __len__(self):
        return int(self.__vc_len__())

    def __bool__(self):
        return bool(self.__vc_len__() > 0)

    def clear(self):
        self.cleared += 1


def cnt(c, k):
    return c[k]


def one_call(ctx, want, is_async=False, listed_only=False):
    """contract of one call through the breaker in an arbitrary state;
    want: which clauses are stated (C04 or C05)"""
    mod = load("aiomisc.circuit_breaker", transform=ctx.sym)
    S = mod.CircuitBreakerStates
    K = mod.CounterKey
    now = ctx.real("now", 0)
    loop = aio.Loop(ctx, now)
    ratio = ctx.real("error_ratio", 0)
    ctx.assume(conj(ratio > 0, ratio < 1))
    rt = ctx.real("response_time", 0)
    ctx.assume(rt > 0)
    times = {}
    for k in ("recovery_time", "broken_time", "passing_time"):
        if ctx.choose(2, k):
            times[k] = ctx.real(k, 0)
            ctx.assume(times[k] > 0)
    insp = ctx.pick(("none", "true", "false", "raises"), "inspector") \
        if want == "C05" else "none"
    inspected = []
    def inspector(e):
        inspected.append(e)
        if insp == "raises":
            raise ValueError("inspector")
        return insp == "true"

    rr = ctx.real("recovery_ratio", 0, 1)
    entry_counter = Counter()
    given = []

    class CB(mod.CircuitBreaker):
        __slots__ = ()

        @property
        def recovery_ratio(self):
            return rr

        def counter(self):
            # contract of counter(): the counter of the current bucket, the
            # same object as long as the bucket lasts
            if not given:
                given.append(entry_counter)
                return entry_counter
            c = Counter()
            given.append(c)
            return c

    cb = CB(ratio, rt, exceptions=(Listed,),
            exception_inspector=None if insp == "none" else inspector, **times)
    recovery_time = times.get("recovery_time", rt)
    broken_time = times.get("broken_time", rt)
    passing_time = times.get("passing_time", rt)
    cb._loop = loop

    f0, o0, t0 = ctx.int("fail0", 0), ctx.int("ok0", 0), ctx.int("total0", 0)
    entry_counter[K.FAIL], entry_counter[K.OK], entry_counter[K.TOTAL] = f0, o0, t0

    s0 = ctx.pick(list(S), "state")
    stuck = ctx.real("stuck_until", 0)
    rec_at = ctx.real("recovery_at", 0)
    n = ctx.int("buckets", 0, 10)
    ctx.assume(rec_at <= now)
    if s0 is S.RECOVERING:
        ctx.assume(stuck <= rec_at)
    last0 = ctx.pick((None, Listed("earlier")), "last exception")
    stat = FakeStatistic(n)
    cb._state, cb._stuck_until, cb._recovery_at = s0, stuck, rec_at
    cb._last_exception = last0
    cb._statistic = stat
    u = ctx.real("random", 0, 1)
    ctx.assume(u < 1)
    mod.random = lambda: u

    # ---- the state the breaker has to be in while this call is served
    if now < stuck:
        s1 = s0
    elif s0 is S.BROKEN:
        s1 = S.RECOVERING
    elif s0 is S.PASSING:
        s1 = S.BROKEN if (n >= 10 and rr >= 1) else S.PASSING
    else:
        if rr >= ratio / 2:
            s1 = S.BROKEN
        elif now - rec_at >= recovery_time:
            s1 = S.PASSING
        else:
            s1 = S.RECOVERING
    ctx.note("expected %s -> %s" % (s0.name, s1.name))

    # ---- the call
    out = ctx.pick(("value", "listed", "child", "unlisted", "fatal"), "outcome")
    value = ctx.opaque("value")
    exc = {"listed": Listed, "child": ListedChild, "unlisted": Unlisted,
           "fatal": Fatal, "value": Listed}[out]("now")
    a, kwv = ctx.opaque("a"), ctx.opaque("k")
    calls = []

    def body(args, kw):
        calls.append((args, kw, cb.state, cb._stuck_until, stat.cleared))
        if out != "value":
            raise exc
        return value

    if is_async:
        kind = ctx.pick(("coroutine function", "plain function"), "callee")
        if kind == "plain function":
            def func(*args, **kw):
                return body(args, kw)
        else:
            async def func(*args, **kw):
                if ctx.choose(2, "suspends"):
                    await aio.Suspend("func")
                return body(args, kw)

        def handler(req):
            loop.advance()
            return aio.Ret(None)
        status, got = aio.drive(cb.call_async(func, a, k=kwv), handler)
    else:
        def func(*args, **kw):
            return body(args, kw)
        try:
            status, got = "ret", cb.call(func, a, k=kwv)
        except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
            raise
        except BaseException as e:
            status, got = "exc", e

    broken = status == "exc" and type(got) is mod.CircuitBroken
    if want == "C04":
        st = cb.state
        ctx.check(st is s1, "state after entering a call",
                  "%s -> %s, expected %s" % (s0.name, st.name, s1.name))
        ctx.cover("%s -> %s" % (s0.name, s1.name))
        if s1 is S.BROKEN and s0 is not S.BROKEN:
            ctx.check(cb._stuck_until == now + broken_time,
                      "BROKEN lasts at least broken_time")
            ctx.check(stat.cleared >= 1, "becoming BROKEN discards the statistics")
        elif s1 is S.PASSING and s0 is S.RECOVERING:
            ctx.check(cb._stuck_until == now + passing_time,
                      "PASSING lasts at least passing_time")
        else:
            ctx.check(cb._stuck_until == stuck, "state delay unchanged")
            ctx.check(stat.cleared == 0, "statistics are kept")
        if s1 is S.RECOVERING and s0 is S.BROKEN:
            ctx.check(cb._recovery_at == now, "recovery time counts from the change")
        elif s0 is S.RECOVERING and s1 is S.RECOVERING:
            ctx.check(cb._recovery_at == rec_at, "recovery start unchanged")
        if s1 is S.BROKEN:
            ctx.check(not calls, "BROKEN executes nothing")
        for c in calls:
            ctx.check(c[2] is s1, "the state does not change while a call is served")
        return

    # ---- C05
    ctx.cover(s1.name)
    ctx.check(len(calls) <= 1, "the function is executed at most once")
    if s1 is S.PASSING:
        ctx.check(len(calls) == 1, "PASSING executes the call")
    elif s1 is S.BROKEN:
        ctx.check(not calls and broken, "BROKEN rejects the call")
    else:
        x = now - rec_at if s0 is S.RECOVERING else 0
        if calls:
            ctx.cover("recovering: executed")
            ctx.check(x > 0, "no call is let through at the start of recovery")
        else:
            ctx.cover("recovering: rejected")
            ctx.check(broken, "a call not executed in recovery is rejected")
            ctx.check(x < recovery_time, "after recovery_time every call passes")
    f1, o1, t1 = (entry_counter[K.FAIL], entry_counter[K.OK],
                  entry_counter[K.TOTAL])
    for c in given[1:]:
        ctx.check(not any(c.values()), "only the bucket of the start of the call counts")
    if not calls:
        ctx.check(broken, "a rejected call raises CircuitBroken")
        ctx.check(got.last_exception is last0,
                  "CircuitBroken carries the last exception")
        ctx.check(conj(f1 == f0, o1 == o0, t1 == t0), "rejected calls are not counted")
        ctx.check(cb._last_exception is last0, "rejection keeps the last exception")
        return
    args, kw = calls[0][:2]
    ctx.check(len(args) == 1 and args[0] is a and list(kw) == ["k"] and kw["k"] is kwv,
              "arguments are passed on")
    ctx.check(t1 == t0 + 1, "an executed call is counted once as total")
    if out == "value":
        ctx.check(status == "ret" and got is value, "the result is returned unchanged")
        ctx.check(conj(o1 == o0 + 1, f1 == f0), "success counts as ok only")
        ctx.check(cb._last_exception is None, "success clears the last exception")
    else:
        ctx.check(status == "exc" and got is exc, "the exception passes unchanged")
        ctx.check(o1 == o0, "a failing call is not ok")
        if out in ("listed", "child"):
            counted = insp in ("none", "true", "raises")
            ctx.check(f1 == f0 + (1 if counted else 0),
                      "a listed exception counts when the inspector accepts it")
            if insp != "none":
                ctx.check(inspected == [exc], "the inspector sees the exception once")
            ctx.check(cb._last_exception is exc, "the last exception is remembered")
        else:
            ctx.check(f1 == f0, "exceptions not listed do not count as failures")
            ctx.check(not inspected, "the inspector is asked about listed exceptions only")
            ctx.check(cb._last_exception is last0, "the last exception is kept")


def ratio_contract(ctx):
    """recovery_ratio: share of the window's buckets whose failure ratio
    reached error_ratio; any number of buckets"""
    mod = load("aiomisc.circuit_breaker", transform=ctx.sym)
    K = mod.CounterKey
    ratio = ctx.real("error_ratio", 0)
    ctx.assume(conj(ratio > 0, ratio < 1))
    cb = mod.CircuitBreaker(ratio, 1)

    class G:
        total = 0
        bad = 0

    def make():
        t = ctx.int("total", 0)
        f = ctx.int("fail", 0)
        ctx.assume(f <= t)

        class C(Counter):
            seen = False

            def __getitem__(self, k):
                # ghost code, run when the bucket is first looked at
                if not self.seen:
                    self.seen = True
                    G.total = G.total + 1
                    # t > 0 and f / t >= ratio
                    G.bad = G.bad + core.ite(
                        conj(t > 0, f >= ratio * t), 1, 0)
                return Counter.__getitem__(self, k)

        c = C()
        c[K.FAIL], c[K.TOTAL] = f, t
        return c

    from pyvc.load import SymSeq
    n = ctx.int("buckets", 0, 10)

    class CB(mod.CircuitBreaker):
        __slots__ = ()

    if ctx.sym:
        seq = SymSeq(n, lambda i: make(), "buckets", None, make)
        CB._CircuitBreaker__gen_statistic = lambda self: seq
    else:
        CB._CircuitBreaker__gen_statistic = lambda self: iter(
            [make() for _ in range(n)])
    cb = CB(ratio, 1)

    def havoc(c):
        G.total = c.int("g_total", 0)
        G.bad = c.int("g_bad", 0)

    ctx.loops = {("for",): Cut(
        havoc, lambda c: [
            (G.total >= 0, "bucket count"), (G.bad >= 0, "bad count"),
            (G.bad <= G.total, "bad buckets are buckets"),
            (G.total == c.iter_index, "every bucket of the window is visited"),
        ], ghosts=lambda c: {"total": G.total, "bad": G.bad},
        label="bucket loop",
    )}
    r = cb.recovery_ratio
    if n == 0:
        ctx.check(r == 0, "no bucket: ratio 0")
        return
    ctx.cover("ratio computed")
    ctx.check(G.total == n, "the ratio is over all buckets of the window")
    ctx.check(conj(r * G.total == G.bad), "ratio = bad buckets / buckets")


def window_contract(ctx):
    """which buckets are in the window: those not older than the response
    time; newest first"""
    mod = load("aiomisc.circuit_breaker", transform=ctx.sym)
    K = mod.CounterKey
    rt = ctx.real("response_time", 0)
    ctx.assume(rt > 0)
    cur = ctx.int("bucket_now", 0)

    class CB(mod.CircuitBreaker):
        __slots__ = ()

        def bucket(self):
            return cur

    cb = CB(0.5, rt)
    n = ctx.choose(11, "number of buckets")
    keys, prev = [], None
    for i in range(n):
        k = ctx.int("bucket", 0)
        ctx.assume(k <= cur)
        if prev is not None:
            ctx.assume(prev < k)
        prev = k
        keys.append(k)
    counters = []
    for k in keys:
        c = Counter()
        c[K.TOTAL] = c[K.FAIL] = 1      # every bucket is a bad one
        counters.append(c)
        cb._statistic.append((k, c))
    r = cb.recovery_ratio
    if n == 0:
        ctx.check(r == 0, "no bucket: ratio 0")
        return
    inwin = 0
    for k in keys:
        inwin = inwin + core.ite(k >= cur - rt * 10, 1, 0)
    ctx.cover("window")
    # all buckets are bad: the ratio is 1 iff any is in the window
    ctx.check(iff(r == 1, inwin > 0), "buckets within the response time decide")
    # mark the oldest as good: it must count iff it is in the window
    counters[0][K.FAIL] = 0
    r2 = cb.recovery_ratio
    d = r2 * inwin - (inwin - 1)
    ctx.check(implies(keys[0] >= cur - rt * 10,
                      conj(d * 1000 < 1, d * 1000 > -1)),
              "a bucket inside the window counts")
    ctx.check(implies(conj(keys[0] < cur - rt * 10, inwin > 0), r2 == 1),
              "a bucket older than the response time does not count")


def counter_contract(ctx):
    """counter(): one counter per bucket, appended in order, at most
    BUCKET_COUNT kept"""
    mod = load("aiomisc.circuit_breaker", transform=ctx.sym)
    cur = ctx.int("bucket_now", 0)

    class CB(mod.CircuitBreaker):
        __slots__ = ()

        def bucket(self):
            return cur

    cb = CB(0.5, 1)
    n = ctx.pick((0, 1, 2, 9, 10), "number of buckets")
    prev = None
    old = []
    for i in range(n):
        k = ctx.int("bucket", 0)
        ctx.assume(k <= cur)
        if prev is not None:
            ctx.assume(prev < k)
        prev = k
        c = Counter(x=i + 1)
        old.append((k, c))
        cb._statistic.append((k, c))
    got = cb.counter()
    new = list(cb._statistic)
    ctx.check(0 < len(new) <= 10, "the window is bounded")
    ctx.check(new[-1][1] is got, "the current counter is the newest bucket")
    ctx.check(new[-1][0] == cur, "the newest bucket is the current one")
    same = n > 0 and old[-1][0] == cur
    if same:
        ctx.cover("same bucket")
        ctx.check(got is old[-1][1], "one counter per bucket")
        ctx.check(len(new) == n, "no bucket is added")
        rest = new
        keep = old
    else:
        ctx.cover("new bucket")
        ctx.check(not any(c is got for _, c in old) and not got,
                  "a new bucket starts empty")
        rest, keep = new[:-1], old[-9:] if n == 10 else old
    ctx.check(len(rest) == len(keep) and all(
        x[1] is y[1] and x[0] is y[0] for x, y in zip(rest, keep)),
        "earlier buckets are kept in order")
    again = cb.counter()
    ctx.check(again is got, "the same bucket gives the same counter")


def bucket_contract(ctx):
    """bucket(): the start of the current slice of the time axis, in tenths
    of a second; monotone, and never further back than one slice"""
    mod = load("aiomisc.circuit_breaker", transform=ctx.sym)
    # nonlinear in the response time: concrete representatives
    rt = ctx.pick((core.Fraction(1, 2), 1, 3, core.Fraction(7, 2), 60), "response_time")
    ctx.assumption("bucket(): response_time from {0.5, 1, 3, 3.5, 60}")
    # now = slice start + a part of the slice
    q = ctx.int("slice", 0)
    r = ctx.real("rest", 0)
    ctx.assume(r < rt)
    cb = mod.CircuitBreaker(0.5, rt)
    cb._loop = aio.Loop(ctx, (q * rt + r) / 10)
    b1 = cb.bucket()
    ctx.check(conj(b1 <= q * rt, q * rt < b1 + 1),
              "the bucket is the (truncated) start of the current slice")


# ------------------------------------------------------------- executions

class Model:
    """reference: the state machine as documented"""

    def __init__(self, ratio, rt, recovery, broken, passing):
        self.ratio, self.rt = ratio, rt
        self.recovery, self.broken, self.passing = recovery, broken, passing
        self.state = 0
        self.until = 0
        self.rec_at = 0
        self.buckets = []
        self.last = None

    def key(self, now):
        ts = now * 10
        return int(ts - (ts % self.rt))

    def enter(self, now):
        k = self.key(now)
        if not self.buckets or self.buckets[-1][0] != k:
            self.buckets.append([k, 0, 0])
            self.buckets = self.buckets[-10:]
        b = self.buckets[-1]
        if now < self.until:
            return b
        if self.state == 1:
            self.state, self.rec_at = 2, now
            return b
        if self.state == 0 and len(self.buckets) < 10:
            return b
        win = [x for x in self.buckets if x[0] >= k - self.rt * 10]
        bad = [x for x in win if x[2] and x[1] / x[2] >= self.ratio]
        share = len(bad) / len(win) if win else 0
        if self.state == 0:
            if share >= 1:
                self.state, self.until, self.buckets = 1, now + self.broken, []
        elif share >= self.ratio * 0.5:
            self.state, self.until, self.buckets = 1, now + self.broken, []
        elif now - self.rec_at >= self.recovery:
            self.state, self.until = 0, now + self.passing
        return b


def fuzz_history(rng, focus="C04"):
    import asyncio
    import importlib
    mod = importlib.import_module("aiomisc.circuit_breaker")
    ratio = rng.choice((0.1, 0.25, 0.5, 0.75, 0.9))
    rt = rng.choice((1, 2, 0.5, 5, 10, 3))
    opt = lambda: rng.choice((None, None, 1, 4, 15, 0.3))
    rec, brk, pas = opt(), opt(), opt()
    insp = rng.choice(("none", "none", "odd", "raise"))

    def inspector(e):
        if insp == "raise":
            raise RuntimeError
        return e.args[0] % 2

    cb = mod.CircuitBreaker(
        ratio, rt, exceptions=(Listed, KeyError), recovery_time=rec,
        broken_time=brk, passing_time=pas,
        exception_inspector=None if insp == "none" else inspector)
    m = Model(ratio, rt, rec or rt, brk or rt, pas or rt)

    class L:
        now = float(rng.randint(0, 1000))

        def time(self):
            return self.now
    loop = cb._loop = L()
    u = [0.0]
    old = mod.random
    mod.random = lambda: u[0]
    pfail = rng.choice((0.5, 0.9, 1.0, 1.0, 0.2))
    step = rng.choice((rt / 10, rt / 10, rt / 20, rt / 7, rt / 3))
    try:
        for i in range(rng.randint(20, 160)):
            if rng.random() < 0.03:
                pfail = rng.choice((0.0, 0.5, 1.0))
            r = rng.random()
            if r < 0.85:
                loop.now += rng.choice((step, step, step * rng.random(), 0))
            elif r < 0.97:
                loop.now += rng.choice((rt, rec or rt, brk or rt, pas or rt)) * rng.choice((0.5, 1, 1.01))
            else:
                loop.now += rt * 12
            u[0] = rng.random()
            before = m.state
            b = m.enter(loop.now)
            kind = rng.choices(("fail", "ok", "other", "fatal"),
                               (pfail, 1 - pfail, 0.05, 0.02))[0]
            exc = {"fail": rng.choice((Listed, ListedChild, KeyError))(i),
                   "other": Unlisted(i), "ok": None,
                   "fatal": rng.choice((Fatal, GeneratorExit, KeyboardInterrupt, asyncio.CancelledError,
                                        SystemExit))(i)}[kind]
            value = object()
            ran = []

            def func(x, y=None):
                assert (x, y) == (i, "k"), "arguments"
                ran.append(1)
                if exc is not None:
                    raise exc
                return value
            got = err = None
            use_async = rng.random() < 0.4
            try:
                if use_async:
                    async def afunc(x, y=None):
                        return func(x, y)
                    f = rng.choice((func, afunc))
                    co = cb.call_async(f, i, y="k")
                    try:
                        co.send(None)
                    except StopIteration as e:
                        got = e.value
                    else:
                        raise AssertionError("call_async suspended")
                else:
                    got = cb.call(func, i, y="k")
            except AssertionError:
                raise
            except BaseException as e:
                err = e
            assert int(cb.state) == m.state, \
                "state %s differs from the documented machine (%d from %d)" % (
                    cb.state.name, m.state, before)
            if m.state == 0:
                admit = True
            elif m.state == 1:
                admit = False
            else:
                admit = (1 + u[0]) < 2 ** ((loop.now - m.rec_at) / (rec or rt))
            assert bool(ran) == admit and len(ran) <= 1, \
                "executed %d times in state %s" % (len(ran), cb.state.name)
            if not admit:
                assert type(err) is mod.CircuitBroken, "CircuitBroken expected"
                assert err.last_exception is m.last, "last exception"
            else:
                b[2] += 1
                if kind == "ok":
                    assert err is None and got is value, "result unchanged"
                    m.last = None
                else:
                    assert err is exc, "exception unchanged"
                    if kind == "fail":
                        m.last = exc
                        if insp in ("none", "raise"):
                            b[1] += 1
                        else:
                            b[1] += exc.args[0] % 2
    finally:
        mod.random = old


def fuzz_overlap(rng):
    """calls which overlap in time: each counts in the bucket of its start"""
    import asyncio
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.circuit_breaker")
    K = mod.CounterKey

    async def main(loop):
        ratio = 0.5
        rt = rng.choice((1, 2, 10))
        use_cutout = rng.random() < 0.3
        cb = mod.CircuitBreaker(ratio, rt, exceptions=(Listed,))
        n = rng.randint(1, 12)
        expect = {}
        seen = []

        async def one(i):
            await asyncio.sleep(rng.random() * rt)
            d = rng.choice((0, rng.random() * rt))
            fail = rng.random() < 0.5
            b = cb.bucket()
            e = expect.setdefault(b, [0, 0, 0])

            async def f():
                if not any(c is cb._statistic[-1][1] for c, _ in seen):
                    seen.append((cb._statistic[-1][1], b))
                if d:
                    await asyncio.sleep(d)
                e[2] += 1
                if fail:
                    e[0] += 1
                    raise Listed(i)
                e[1] += 1
                return i
            try:
                r = await cb.call_async(f)
                assert not fail and r == i, "result"
            except Listed as x:
                assert fail and x.args == (i,), "exception"
        await asyncio.gather(*[one(i) for i in range(n)])
        if cb.state is mod.CircuitBreakerStates.PASSING:
            for c, b in seen:
                got = [c[K.FAIL], c[K.OK], c[K.TOTAL]]
                assert got == expect[b], "bucket %s counts %s, expected %s" % (b, got, expect[b])
    simloop.run(main)


def fuzz_cutout(rng):
    import asyncio
    import importlib
    mod = importlib.import_module("aiomisc.circuit_breaker")
    calls = []
    exc = rng.choice((None, Listed(1), Unlisted(2)))
    if rng.random() < 0.5:
        @mod.cutout(0.5, 1, Listed)
        async def f(a, *, b):
            calls.append((a, b))
            if exc:
                raise exc
            return calls
    else:
        @mod.cutout(0.5, 1, Listed)
        def f(a, *, b):
            calls.append((a, b))
            if exc:
                raise exc
            return calls

    async def main():
        try:
            r = f(1, b=2)
            if asyncio.iscoroutine(r):
                r = await r
        except Exception as e:
            assert e is exc, "exception unchanged"
        else:
            assert exc is None and r is calls, "result unchanged"
        assert calls == [(1, 2)], "executed once"
    asyncio.run(main())
    assert f.__name__ == "f"
