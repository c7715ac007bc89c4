"""C22: aiomisc.signal."""
import functools

from pyvc import core
from pyvc.aio import Exc, Ret, Suspend, close_coro, drive
from pyvc.core import conj
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["iterating (a copy of) a set gives each element once",
          "receivers connected or disconnected during a call may be called by it or not"]
CONTRACTS = ["Signal.call (any number of receivers)",
             "Signal.connect/disconnect/freeze/copy/is_frozen, receiver (one step from any set of receivers)"]
BOUNDED = {"history": "histories of four steps over two receivers and one copy"}


class Falsy(Exception):
    def __bool__(self):
        return False


def call(ctx):
    """one call: any number of receivers, each may fail"""
    mod = load("aiomisc.signal", transform=ctx.sym)
    need(mod, "Signal")
    s = mod.Signal()
    need(s, "_receivers")
    if not isinstance(s._receivers, (set, frozenset)):
        raise core.Unsupported("receivers are not kept in a set")
    n = ctx.int("receivers", 0, near=3)
    if not ctx.sym:
        n = n % 6
    arg, kw = object(), object()

    class G:
        count = 0       # receivers called
        busy = False
        err = None

    def make(i):
        async def receiver(*a, **k):
            ctx.check(len(a) == 1 and a[0] is arg and set(k) == {"k"} and k["k"] is kw, "the arguments given")
            ctx.check(not G.busy, "one receiver after the other")
            ctx.check(G.err is None, "the first exception stops the call")
            if ctx.sym:
                ctx.check(i == G.count, "each receiver is called once")
            else:
                ctx.check(i not in seen, "each receiver is called once")
                seen.append(i)
            G.count = G.count + 1
            G.busy = True
            try:
                await Suspend("receiver", i)
            finally:
                G.busy = False
        return receiver
    seen = []
    if ctx.sym:
        s._receivers = SymSeq(n, make, "receivers")
    else:
        for i in range(n):
            s.connect(make(i))
        if ctx.choose(2, "frozen"):
            s.freeze()

    def havoc(c):
        G.count = c.int("called", 0)

    def inv(c):
        return [(G.count == c.iter_index, "each receiver is called once"),
                (not G.busy, "one receiver after the other"), (G.err is None, "the first exception stops the call")]
    ctx.loops = {("for",): Cut(havoc, inv)}

    def handler(q):
        k = ctx.choose(3, "receiver") if ctx.sym else ctx.choose(5, "receiver")
        if k == 1:
            G.err = Falsy()
            return Exc(G.err)
        if k == 2:
            G.err = GeneratorExit() if False else KeyError("x")
            return Exc(G.err)
        return Ret(ctx.pick((None, 5), "result"))
    st, v = drive(s.call(arg, k=kw), handler)
    if G.err is None:
        ctx.check(st == "ret", "the call does not fail", v)
        ctx.check(G.count == n, "each receiver is called once")
        ctx.cover("called")
    else:
        ctx.check(st == "exc" and v is G.err, "the exception of a receiver is passed on", v)
        ctx.cover("failed")


def history(ctx):
    """connect, disconnect, freeze, copy and call in any order, receivers may
    change the signal"""
    mod = load("aiomisc.signal", transform=ctx.sym)
    need(mod, "Signal", "receiver")
    log = []

    async def r0(x):
        log.append(0)
        await Suspend("r", 0)

    async def r1(x):
        log.append(1)
        await Suspend("r", 1)
    rs = [r0, r1]

    class M:
        """what a signal should be"""

        def __init__(self, sig, have=(), frozen=False):
            self.sig, self.have, self.frozen = sig, set(have), frozen
    ms = [M(mod.Signal())]

    def change(m, add, i):
        try:
            if add == "decorate":
                got = mod.receiver(m.sig)(rs[i])
                ctx.check(got is rs[i], "the decorator gives the function")
            elif add:
                m.sig.connect(rs[i])
            else:
                m.sig.disconnect(rs[i])
            ok = True
        except (core.PathEnd, core.Unsupported):
            raise
        except Exception as e:
            ok = False
            ctx.check(isinstance(e, RuntimeError), "refusing is a RuntimeError", e)
        ctx.check(ok == (not m.frozen), "a frozen signal is not changed, others are")
        if ok:
            (m.have.add if add else m.have.discard)(i)

    def fire(m, during=None):
        del log[:]
        before = set(m.have)
        touched = set()
        first = [True]

        def handler(q):
            if during and first[0]:
                first[0] = False
                add, i = during
                change(m, add, i)
                touched.add(i)
            return Ret(None)
        st, v = drive(m.sig.call(1), handler)
        ctx.check(st == "ret", "the call does not fail", v)
        ctx.check(len(log) == len(set(log)), "each receiver is called once")
        for i in range(2):
            if i in before - touched:
                ctx.check(i in log, "each receiver is called once")
            elif i not in before | touched:
                ctx.check(i not in log, "only connected receivers are called")
    n = 0
    for _ in range(4):
        m = ms[0] if len(ms) == 1 else ms[ctx.choose(2, "signal")]
        op = ctx.pick(("end", "connect", "disconnect", "freeze", "copy", "call", "change"), "op")
        if op == "end":
            break
        if op == "connect":
            change(m, "decorate" if ctx.choose(3, "how") == 2 else True, ctx.choose(2, "receiver"))
        elif op == "disconnect":
            change(m, False, ctx.choose(2, "receiver"))
        elif op == "freeze":
            m.sig.freeze()
            m.frozen = True
            ctx.check(m.sig.is_frozen, "a frozen signal says so")
        elif op == "copy":
            c = M(m.sig.copy(), m.have)
            ctx.check(c.sig is not m.sig and not c.sig.is_frozen, "a copy is not frozen")
            ms = [m, c]
        elif op == "call":
            fire(m)
        else:
            fire(m, (bool(ctx.choose(2, "connect")), ctx.choose(2, "receiver")))
        for m in ms:
            ctx.check(bool(m.sig.is_frozen) == m.frozen, "signals do not influence each other")
    for m in ms:
        fire(m)
    ctx.cover("end")


def accepts(ctx):
    """what may be connected"""
    mod = load("aiomisc.signal", transform=ctx.sym)
    need(mod, "Signal")
    s = mod.Signal()
    calls = []

    async def coro(*a):
        calls.append(a)

    class A:
        async def m(self, *a):
            calls.append(a)
    k = ctx.pick(("coro", "method", "partial", "plain", "none", "lambda"), "receiver")
    r = {"coro": coro, "method": A().m, "partial": functools.partial(coro, 1), "plain": print, "none": None,
         "lambda": lambda *a: coro(*a)}[k]
    try:
        s.connect(r)
        ok = True
    except RuntimeError:
        ok = False
    if ok:
        s.connect(r)
    ctx.check(ok == (k in ("coro", "method", "partial")), "coroutine functions are receivers")
    st, v = drive(s.call(2), lambda q: Ret(None))
    ctx.check(st == "ret" and calls == ([(1, 2)] if k == "partial" else [(2,)] if ok else []),
              "each receiver is called once")

class ASet(core.Abstract):
    """any set of receivers: two receivers are known to be in it or not,
    nothing is known about the rest, which no operation may look at"""
    kind = "set"

    def __init__(self, src=()):
        if isinstance(src, ASet):
            self.known, self.rest = dict(src.known), src.rest
        elif not src:
            self.known, self.rest = dict.fromkeys(core.CURRENT.receivers, False), "nothing"
        else:
            raise core.Unsupported("a set of something else")

    def put(self, x, v):
        if x not in self.known:
            raise core.Unsupported("another element")
        self.known[x] = v

    def change(self, x, v):
        if self.kind != "set":
            raise AttributeError("frozen sets do not change")
        self.put(x, v)

    def add(self, x):
        self.change(x, True)

    def discard(self, x):
        self.change(x, False)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.change(x, False)

    def copy(self):
        return type(self)(self)

    def __or__(self, o):
        s = type(self)(self)
        for x in o:
            s.put(x, True)
        return s

    def __sub__(self, o):
        s = type(self)(self)
        for x in o:
            s.put(x, False)
        return s

    def __contains__(self, x):
        if x not in self.known:
            raise core.Unsupported("another element")
        return self.known[x]

    def __iter__(self):
        raise core.Unsupported("iterating over any set")


class AFrozen(ASet):
    kind = "frozenset"


def step(ctx):
    """one operation on a signal with any set of receivers: exactly the
    receiver given is connected or disconnected"""
    mod = load("aiomisc.signal", transform=ctx.sym)
    need(mod, "Signal", "receiver")
    probe = mod.Signal()
    need(probe, "_receivers")
    if not isinstance(probe._receivers, set):
        raise core.Unsupported("receivers are kept in another way")
    probe.freeze()
    if not isinstance(probe._receivers, frozenset):
        raise core.Unsupported("frozen receivers are kept in another way")
    mod.__dict__.update(set=ASet, frozenset=AFrozen)

    async def me():
        pass

    async def other():
        pass
    frozen = bool(ctx.choose(2, "frozen"))
    ctx.receivers = (me, other, print)
    r = (AFrozen if frozen else ASet)()
    r.rest = "the rest"
    had = r.known = {me: bool(ctx.choose(2, "connected")), other: bool(ctx.choose(2, "other connected")), print: False}
    s = mod.Signal()
    s._receivers = r
    state = {"s": (frozen, dict(had))}
    sigs = {"s": s}

    def look(what):
        for k, g in sigs.items():
            c = g._receivers
            if not isinstance(c, ASet):
                raise core.Unsupported("another set")
            ctx.check((bool(g.is_frozen), c.known) == state[k] and c.rest == "the rest", what, (k, g.is_frozen, c.known, state[k]))
    op = ctx.pick(("connect", "decorate", "disconnect", "freeze", "copy", "refuse"), "op")

    def apply(name, op):
        g = sigs[name]
        fr, have = state[name]
        x = me if ctx.choose(2, "which") else other
        try:
            if op == "connect":
                g.connect(x)
            elif op == "decorate":
                ctx.check(mod.receiver(g)(x) is x, "the decorator gives the function")
            elif op == "refuse":
                g.connect(print)
            else:
                g.disconnect(x)
            ok = True
        except (core.PathEnd, core.Unsupported):
            raise
        except Exception as e:
            ok = False
            ctx.check(isinstance(e, RuntimeError), "refusing is a RuntimeError", e)
        ctx.check(ok == (not fr and op != "refuse"), "a frozen signal is not changed, others are")
        if ok:
            have[x] = op != "disconnect"
    if op in ("connect", "decorate", "disconnect", "refuse"):
        apply("s", op)
    elif op == "freeze":
        s.freeze()
        state["s"] = (True, state["s"][1])
    else:
        sigs["c"] = s.copy()
        ctx.check(sigs["c"] is not s, "a copy is another signal")
        state["c"] = (False, dict(state["s"][1]))
        look("a copy has the same receivers and is not frozen")
        w = ctx.pick(("s", "c"), "changed")
        apply(w, ctx.pick(("connect", "disconnect"), "then"))
        if ctx.choose(2, "freeze"):
            sigs[w].freeze()
            state[w] = (True,) + state[w][1:]
    look("exactly the receiver given is connected or disconnected")
    ctx.cover(op)


HARNESSES = [("call", call), ("step", step), ("history", history), ("accepts", accepts)]


def fuzz(rng):
    from aiomisc.signal import Signal
    from pyvc import simloop
    import asyncio

    async def main(loop):
        s = Signal()
        log = []

        def make(i):
            async def r(x, *, y):
                assert (x, y) == (1, 2)
                assert not busy, "receivers overlap"
                busy.append(i)
                log.append(i)
                await asyncio.sleep(rng.choice((0, 1)))
                busy.pop()
                if i in fails:
                    raise Falsy()
            return r
        busy, have, frozen = [], {}, False
        fails = set()
        for i in range(rng.randrange(1, 12)):
            k = rng.random()
            if k < 0.4:
                r = make(i)
                try:
                    s.connect(r)
                    assert not frozen
                    have[i] = r
                except RuntimeError:
                    assert frozen
                if rng.random() < 0.2:
                    fails.add(i)
            elif k < 0.55 and have:
                j = rng.choice(list(have))
                try:
                    s.disconnect(have[j])
                    assert not frozen
                    del have[j]
                except RuntimeError:
                    assert frozen
            elif k < 0.6:
                s.freeze()
                frozen = True
            elif k < 0.7:
                s = s.copy()
                frozen = False
            else:
                del log[:]
                try:
                    await s.call(1, y=2)
                    assert sorted(log) == sorted(have), "not each receiver is called once"
                    assert not fails & set(have), "an exception is lost"
                except Falsy:
                    assert log[-1] in fails and not fails & set(log[:-1]), "not the first exception"
                    assert len(log) == len(set(log)) and set(log) <= set(have)
    simloop.run(main)


FUZZ = [("histories", fuzz)]
FUZZ_S = 3
