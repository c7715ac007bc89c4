"""C03: retry decorators (aiomisc.backoff, aiomisc.timeout)."""
import asyncio

from pyvc import aio, core
from pyvc.aio import Exc, NS, Ret, Suspend, WaitFor, drive
from pyvc.core import conj, implies
from pyvc.load import Cut, load


class Listed(Exception):
    pass


class ListedChild(Listed):
    pass


class Unlisted(Exception):
    pass


class AlsoListed(Exception):
    pass


class Fatal(BaseException):
    pass


class Boolless(Listed):
    """an exception instance may be falsy"""

    def __len__(self):
        return 0


ASSUME = [
    "the decorated function lets cancellation through (does not turn a "
    "CancelledError thrown into it into another outcome)",
    "asyncio.wait_for/sleep obey their documented contracts (pyvc.aio)",
    "exception matching is decided per class: Listed, a subclass, Unlisted, "
    "TimeoutError, BaseException stand for all classes with the same answer",
]


def backoff(ctx, retry=False, company=False):
    now0 = ctx.real("now", 0)
    loop = aio.Loop(ctx, now0)

    def opt(name, gen):
        return None if ctx.choose(2, name + " is None") else gen()

    attempt_timeout = deadline = None
    if company:
        if ctx.choose(2, "with timeouts"):
            attempt_timeout, deadline = ctx.real("attempt_timeout", 0), ctx.real("deadline", 0)
            ctx.assume(conj(attempt_timeout > 0, deadline > 0))
    elif not retry:
        attempt_timeout = opt("attempt_timeout", lambda: ctx.real("attempt_timeout", 0))
        deadline = opt("deadline", lambda: ctx.real("deadline", 0))
    pause = ctx.real("pause", 0)
    max_tries = opt("max_tries", lambda: ctx.int("max_tries", 1))
    use_giveup = not company and ctx.choose(2, "giveup") == 1
    args = (ctx.opaque("arg"),)
    kwargs = {"kw": ctx.opaque("kw")}

    class G:
        n = 0               # attempts started
        last = None         # last failure
        last_at = now0      # its time
        again = True        # the last outcome allows another attempt
        result = None
        verdict = None
        deadline_hit = False
        in_func = None      # start time of the running attempt
        cancelled = False
        fatal = None
        calls = 0
        nested = 0          # another call of the same function is running
        wrapped = None

    def fresh_exc(names=("listed", "falsy", "timeout", "unlisted", "fatal")):
        k = ctx.pick(names, "exception")
        return {
            "listed": Listed, "child": ListedChild, "falsy": Boolless,
            "timeout": asyncio.TimeoutError, "unlisted": Unlisted,
            "fatal": Fatal,
        }[k](k)

    RETRYABLE = (Listed, asyncio.TimeoutError)

    def failed(e):
        """the attempt ended with e: decide (independently of the code)
        whether the policy allows another one"""
        G.in_func = None
        G.last_at = loop.now
        if not isinstance(e, RETRYABLE):
            G.again = False
            if isinstance(e, Exception):
                G.last = e
            else:
                G.fatal = e
            return
        G.last = e
        G.again = True
        G.verdict = None

    def giveup(e):
        if G.nested:
            return False
        ctx.check(e is G.last, "giveup is asked about the exception that was raised")
        v = ctx.choose(2, "giveup verdict")
        G.verdict = bool(v)
        return G.verdict

    def func_call():
        # the caller's obligations at every attempt
        ctx.check(G.result is None, "no attempt after success")
        if G.n == 0:
            ctx.cover("first attempt")
        else:
            ctx.cover("retry")
        ctx.check(implies(G.n >= 1, G.again),
                  "retries only after a listed exception or a timeout")
        if max_tries is not None:
            ctx.check(G.n < max_tries, "no more than max_tries attempts")
        if G.again and G.verdict is not None:
            ctx.check(not G.verdict, "no attempt after giveup")
        if use_giveup:
            ctx.check(implies(G.n >= 1, G.verdict is not None),
                      "giveup is consulted before another attempt")
        ctx.check(implies(G.n >= 1, loop.now >= G.last_at + pause),
                  "the pause is respected between attempts")
        if deadline is not None:
            ctx.check(loop.now <= now0 + deadline, "no attempt after the deadline")
        ctx.check(not G.cancelled, "no attempt after cancellation")
        G.n = G.n + 1
        G.verdict = None

    def another_call():
        """rely: other calls of the same decorated function are made while
        this one waits, with any number of failures; they change nothing here"""
        G.nested += 1
        old, sc = getattr(ctx, "no_cut", False), aio.scopes()
        ctx.no_cut = True
        ctx.scopes[:] = []
        n = ctx.choose(3, "failures of another call")
        st, v = drive(G.wrapped("other", n), lambda q: Ret(None))
        ctx.no_cut = old
        ctx.scopes[:] = sc
        G.nested = 0
        ctx.cover("another call")

    async def func(*a, **k):
        if G.nested:
            ctx.check(a[0] == "other", "every call gets its own arguments")
            G.nested += 1
            if G.nested - 2 < a[1]:
                raise Listed("other")
            if a[1] == 2:
                raise Unlisted("other")
            return "other"
        ctx.check(a == args and k == kwargs,
                  "every attempt gets the caller's arguments")
        func_call()
        G.in_func = loop.now
        try:
            kind = ctx.pick(("await", "now"), "attempt")
            if kind == "await":
                await Suspend("func")
            kind = ctx.pick(("value", "raise"), "attempt outcome")
            if kind == "value":
                G.result = ctx.opaque("value")
                return G.result
            raise fresh_exc()
        except aio.asyncio.CancelledError:
            # cancelled from outside, by attempt_timeout or by the deadline
            G.in_func = None
            raise
        except BaseException as e:
            failed(e)
            raise

    def is_deadline(scope):
        return deadline is not None and scope.timeout is deadline

    class wait_for(WaitFor):
        def __init__(self, aw, timeout):
            super().__init__(aw, timeout, lambda: loop.now)

        def on_timeout(self, e):
            if G.nested:
                return
            if is_deadline(self):
                G.deadline_hit = True
                return
            # the attempt ran into its time limit: a retryable failure
            if self.timeout is not None and self.timeout <= 0:
                G.n = G.n + 1       # counts although it could not start
            G.in_func = None
            G.last = e
            G.last_at = loop.now
            G.again = True
            G.verdict = None

    def sleep(t):
        return Suspend("sleep", t)

    def handler(req):
        sc = aio.scopes()
        if company and G.calls < 1:
            G.calls += 1
            if ctx.choose(2, "another call meanwhile"):
                another_call()
        # time limits in force (guarantee)
        if req.kind == "func":
            if attempt_timeout is not None:
                ok = False
                for s in sc:
                    if s.timeout is not None:
                        ok = core.disj(ok, s.limit <= G.in_func + attempt_timeout)
                ctx.check(ok, "an attempt is bounded by attempt_timeout")
        if deadline is not None:
            ok = False
            for s in sc:
                if s.timeout is not None:
                    ok = core.disj(ok, s.limit <= now0 + deadline)
            ctx.check(ok, "every wait is bounded by the deadline")
        if req.kind == "sleep":
            ctx.check(req.args[0] >= 0, "sleep is not negative")
        timed = [s for s in sc if s.timeout is not None and not s.expired]
        how = ctx.choose(2 + len(timed), "await ends")
        if how == 0:
            if req.kind == "sleep":
                loop.advance()
                ctx.assume(loop.now >= G.last_at + req.args[0]
                           if G.last is not None else loop.now >= now0)
            else:
                loop.advance()
            for s in timed:
                ctx.assume(loop.now <= s.limit)
            ctx.feasible()
            return Ret(None)
        loop.advance()
        if how == 1:
            for s in timed:
                ctx.assume(loop.now <= s.limit)
            ctx.feasible()
            G.cancelled = True
            return Exc(asyncio.CancelledError())
        s = timed[how - 2]
        ctx.assume(loop.now == s.limit)
        for o in timed:
            ctx.assume(loop.now <= o.limit)
        ctx.feasible()
        return aio.expire(s)

    asyncio_ns = NS(
        asyncio, wait_for=wait_for, sleep=sleep,
        get_running_loop=lambda: loop, get_event_loop=lambda: loop,
    )
    tmo = load("aiomisc.timeout", {"asyncio": asyncio_ns}, transform=ctx.sym)
    mod = load("aiomisc.backoff", {
        "asyncio": asyncio_ns, "timeout": tmo.timeout,
    }, transform=ctx.sym)

    # loop contract
    def havoc(c):
        if c.choose(2, "first iteration") == 0:
            return
        G.n = c.int("attempts", 1)
        loop.now = c.real("now_k", 0)
        G.last_at = c.real("last_at", 0)
        c.assume(loop.now >= now0)
        c.assume(G.last_at >= now0)
        G.again = True
        G.last = c.pick((Listed, asyncio.TimeoutError, Boolless), "last failure")("earlier")
        G.verdict = False if use_giveup else None
        G.deadline_hit = False
        G.in_func = None

    def inv(c):
        out = [
            (G.n >= 0, "attempts counted"),
            (loop.now >= now0, "time is monotone"),
            (core.disj(G.n == 0, conj(
                G.again, loop.now >= G.last_at + pause)),
             "only retryable failures, pause served"),
            (G.result is None, "no result yet"),
        ]
        if max_tries is not None:
            out.append((core.disj(G.n == 0, G.n < max_tries), "attempts left"))
        if deadline is not None:
            out.append((loop.now <= now0 + deadline, "deadline not over"))
        if use_giveup:
            out.append((core.disj(G.n == 0, G.verdict is False), "giveup said no"))
        return out

    ctx.loops = {("while",): Cut(
        havoc, inv,
        ghosts=lambda c: {"attempts": G.n, "last": G.last},
        label="retry loop",
    )}

    kw = dict(pause=pause, max_tries=max_tries)
    if use_giveup:
        kw["giveup"] = giveup
    if retry:
        deco = mod.asyncretry(exceptions=(Listed,), **kw)
    else:
        how = 0 if company else ctx.choose(3, "exceptions by keyword")
        if how == 0:
            deco = mod.asyncbackoff(attempt_timeout, deadline,
                                    exceptions=(Listed,), **kw)
        else:
            p = kw.pop("pause")
            if how == 1:
                deco = mod.asyncbackoff(attempt_timeout, deadline, p, Listed, **kw)
            else:
                # both ways at once, half of the list each
                deco = mod.asyncbackoff(attempt_timeout, deadline, p, AlsoListed,
                                        exceptions=(Listed,), **kw)
    G.wrapped = deco(func)
    coro = G.wrapped(*args, **kwargs)
    zero = [t is not None and bool(t <= 0) for t in (attempt_timeout, deadline)]
    status, value = drive(coro, handler)

    if status == "ret":
        ctx.cover("success")
        ctx.check(G.result is not None and value is G.result,
                  "the result of the successful attempt is returned")
        return
    ctx.check(G.result is None or G.cancelled or G.deadline_hit,
              "a successful attempt is not turned into an error")
    if G.cancelled:
        ctx.cover("cancelled")
        ctx.check(isinstance(value, asyncio.CancelledError),
                  "cancellation reaches the caller", value)
        return
    if G.fatal is not None:
        ctx.check(value is G.fatal, "a BaseException passes unchanged")
        return
    if G.deadline_hit or zero[1]:
        ctx.cover("deadline")
        if G.last is None:
            ctx.check(isinstance(value, asyncio.TimeoutError),
                      "deadline without failures raises TimeoutError", value)
        else:
            ctx.check(value is G.last,
                      "deadline raises the last failure", value)
        return
    ctx.cover("gave up")
    ctx.check(G.last is not None and value is G.last,
              "the last failure is raised", repr((value, G.last)))
    if G.again:
        exhausted = False if max_tries is None else (G.n >= max_tries)
        gave = use_giveup and G.verdict is True
        ctx.check(core.disj(exhausted, gave),
                  "gives up only when attempts are exhausted or giveup says so")


def retry(ctx):
    backoff(ctx, retry=True)


def company(ctx):
    backoff(ctx, company=True)


HARNESSES = [("asyncbackoff", backoff), ("other calls", company), ("asyncretry", retry)]


CONTRACTS = [
    "asyncbackoff(...)(func)(*args): outcome, number of attempts, retry "
    "decision, pause, attempt_timeout, deadline, cancellation",
    "asyncretry(...)", "timeout(value)(func)",
    "loop contract of the retry loop",
]


# ---------------------------------------------------------------- executions

def fuzz_backoff(rng):
    """reference: the timeline computed by hand from the documented policy"""
    import importlib

    from pyvc import simloop
    bk = importlib.import_module("aiomisc.backoff")
    retry_ = rng.random() < 0.25
    t = lambda hi: round(rng.uniform(0.05, hi), 4) + rng.choice((0.00001, 0.00003, 0.00007))
    at = None if retry_ or rng.random() < 0.5 else t(3)
    dl = None if retry_ or rng.random() < 0.4 else t(12)
    pause = rng.choice((0, 0, t(2)))
    mt = rng.choice((None, None, 1, 2, 3, 5))
    n = rng.randint(1, 9)
    classes = (Listed, ListedChild, Boolless, asyncio.TimeoutError, Unlisted,
               Fatal)
    w = rng.choice(((5, 2, 1, 2, 1, 0.3), (9, 1, 1, 3, 0.1, 0), (1, 1, 1, 1, 2, 1)))
    script = []
    for i in range(n):
        d = 0 if rng.random() < 0.3 else t(2)
        k = rng.choices(classes, w)[0](i)
        script.append((d, k))
    script.append((0, object()))
    giveup_at = rng.choice((None, None, rng.randrange(n + 1)))
    cancel_at = None if rng.random() < 0.8 else t(8)
    truthy = rng.choice((True, 1, "yes"))
    falsy = rng.choice((False, 0, None))

    calls = []

    async def body(loop):
        start = loop.time()

        async def func(a, *, b):
            if a == "other":
                others.append(b)
                await asyncio.sleep(rng.choice((0, .1, .7)))
                if rng.random() < .6:
                    raise rng.choice((Listed, Unlisted, Boolless))("other")
                return "other"
            assert (a, b) == (1, 2), "arguments of an attempt"
            k = len(calls)
            assert k < len(script), "more attempts than the policy allows"
            calls.append(loop.time() - start)
            d, out = script[k]
            if d:
                await asyncio.sleep(d)
            if isinstance(out, BaseException):
                raise out
            return out

        others = []

        def giveup(e):
            if e.args == ("other",):
                return False
            return truthy if len(calls) - 1 == giveup_at else falsy

        kw = dict(max_tries=mt, pause=pause)
        if giveup_at is not None:
            kw["giveup"] = giveup
        if retry_:
            f = bk.asyncretry(exceptions=(Listed,), **kw)(func)
        elif rng.random() < 0.5:
            f = bk.asyncbackoff(at, dl, exceptions=(Listed,), **kw)(func)
        elif rng.random() < 0.5:
            f = bk.asyncbackoff(at, dl, kw.pop("pause"), Listed, **kw)(func)
        else:
            a, b = rng.choice(((Listed, AlsoListed), (AlsoListed, Listed)))
            f = bk.asyncbackoff(at, dl, kw.pop("pause"), a, exceptions=(b,), **kw)(func)
        task = loop.create_task(f(1, b=2))

        async def company():
            for _ in range(rng.randint(1, 3)):
                await asyncio.sleep(rng.uniform(0, 1))
                o = loop.create_task(f("other", b=1))
                await asyncio.wait([o], timeout=rng.uniform(0, 4))
                o.cancel()
                await asyncio.gather(o, return_exceptions=True)
        if rng.random() < .5:
            other = loop.create_task(company())
        if cancel_at is not None:
            loop.call_later(cancel_at, task.cancel)
        while not task.done():
            try:
                await asyncio.wait([task])
            except BaseException:
                raise
        end = loop.time() - start
        if task.cancelled():
            return "cancelled", None, end
        if task.exception() is not None:
            return "exc", task.exception(), end
        return "ret", task.result(), end

    # reference
    limit = min(x for x in (dl, cancel_at, 1e9) if x is not None)
    what = "deadline" if limit == dl else "cancel"
    now, last, starts, exp = 0.0, None, [], None
    for k, (d, out) in enumerate(script):
        if now > limit:
            break
        starts.append(now)
        e = now + d
        if at is not None and d > at:
            e, out = now + at, asyncio.TimeoutError
        if e > limit:
            break
        now = e
        if not isinstance(out, BaseException) and out is not asyncio.TimeoutError:
            exp = ("ret", out, now)
            break
        retryable = out is asyncio.TimeoutError or isinstance(
            out, (Listed, asyncio.TimeoutError))
        last = out
        if not retryable or (mt is not None and k + 1 >= mt) or k == giveup_at:
            exp = ("exc", out, now)
            break
        now += pause
    if exp is None:
        if what == "cancel":
            exp = ("cancelled", None, limit)
        else:
            exp = ("exc", last if last is not None else asyncio.TimeoutError, limit)
    fatal = exp[0] == "exc" and isinstance(exp[1], Fatal)

    async def main(loop):
        try:
            return await body(loop)
        except Fatal as e:
            return "exc", e, None

    try:
        got = simloop.run(main)
    except Fatal as e:
        got = ("exc", e, None)
    if DEBUG: print(dict(at=at,dl=dl,pause=pause,mt=mt,script=script,giveup_at=giveup_at,cancel_at=cancel_at,calls=calls,got=got,exp=exp,starts=starts))
    assert got[0] == exp[0], "outcome %s, policy says %s" % (got[0], exp[0])
    if exp[1] is asyncio.TimeoutError:
        assert type(got[1]) is asyncio.TimeoutError, "TimeoutError expected"
    else:
        assert got[1] is exp[1], "a different result or exception is delivered"
    assert len(calls) == len(starts), "number of attempts differs from the policy"
    for a, b in zip(calls, starts):
        assert abs(a - b) < 1e-6, "an attempt starts at the wrong time"
    if got[2] is not None and not fatal:
        assert abs(got[2] - exp[2]) < 1e-6, "finished at the wrong time"


DEBUG = False
FUZZ = [("backoff", fuzz_backoff)]
