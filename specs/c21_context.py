"""C21: aiomisc.context, aiomisc._context_vars."""
import asyncio
import collections
import contextvars
import warnings

from pyvc import core, simthreads
from pyvc.load import load, need

ASSUME = ["asyncio.Future, Task and shield are executed, not specified; the loop is a FIFO queue of callbacks",
          "a value set takes effect when the loop gets to it"]
BOUNDED = {"history": "histories of five steps over two keys", "loops": "two loops", "strict": "four operations on two variables"}
CONTRACTS = ["Context.__getitem__/__setitem__/__setter (one step from every state of a key, any number of readers)",
             "get_context", "StrictContextVar.get/set"]


class Loop:
    def __init__(self):
        self.queue = collections.deque()
        self.setting = None
        self.on_set = None
        self.closed = False
        self.foreign = False
        self.errors = []

    def call_soon(self, cb, *args, context=None):
        if self.foreign:
            self.errors.append("the loop is used by another thread")
        return self.call_soon_threadsafe(cb, *args, context=context)

    def call_soon_threadsafe(self, cb, *args, context=None):
        h = asyncio.Handle(cb, args, self, context)
        self.queue.append((self.setting, h))
        return h

    def create_future(self):
        return asyncio.Future(loop=self)

    def get_debug(self):
        return False

    def is_closed(self):
        return self.closed

    def is_running(self):
        return True

    def call_exception_handler(self, c):
        if "destroyed" not in c.get("message", ""):
            self.errors.append(c)

    def step(self):
        s, h = self.queue.popleft()
        if not h.cancelled():
            try:
                h._context.run(h._callback, *h._args)
            except Exception as e:
                self.errors.append(e)
        if s is not None:
            self.on_set(*s)

    def drain(self):
        n = 0
        while self.queue:
            self.step()
            n += 1
            assert n < 1000, "the loop does not come to rest"


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def world(ctx):
    mod = load("aiomisc.context", transform=ctx.sym)
    need(mod, "Context", "get_context", "ContextStatistic")

    class Stat:
        def __init__(self, name=None):
            self.get = self.set = 0
    mod.ContextStatistic = Stat
    return mod


MISSING = object()


def history(ctx):
    """five steps of setting, reading, giving up and running the loop"""
    mod = world(ctx)
    loop = Loop()
    c = mod.Context(loop)
    value = {}
    waiting = []
    readers, seen = [], []      # checks are made outside of tasks
    values = [object(), None, Falsy()]
    keys = ("", "b")

    def on_set(k, v):
        value[k] = v
        for t in waiting:
            if t["key"] == k:
                t["values"].append(v)
    loop.on_set = on_set

    async def read(tok):
        v0 = value.get(tok["key"], MISSING)
        tok["values"] = [] if v0 is MISSING else [v0]
        waiting.append(tok)
        tok["started"] = True
        v = await c[tok["key"]]
        waiting.remove(tok)
        seen.append((any(v is x for x in tok["values"]), "a reader gets the value set"))
        if v0 is not MISSING:
            seen.append((v is v0 or len(tok["values"]) > 1, "a reader gets the most recent value"))
        tok["done"] = True

    def set_(k, v):
        n = len(loop.queue)
        loop.setting = (k, v)
        loop.foreign = foreign
        c[k] = v
        loop.setting = None
        loop.foreign = False
        if len(loop.queue) == n:
            on_set(k, v)

    def begin(k):
        tok = {"key": k, "done": False, "values": [], "cancelled": False, "started": False}
        tok["task"] = asyncio.Task(read(tok), loop=loop)
        readers.append(tok)
    nset = 0
    foreign = bool(ctx.choose(2, "values are set by another thread"))
    for i in range(5):
        op = ctx.pick(("set", "read", "cancel", "run", "other", "end"), "op")
        if op == "end":
            break
        if op == "set":
            set_(keys[0], values[nset % 3])
            nset += 1
        elif op == "read":
            begin(keys[0])
        elif op == "other":
            if ctx.choose(2, "other key"):
                begin(keys[1])
            else:
                set_(keys[1], "other")
        elif op == "cancel":
            live = [t for t in readers if not t["task"].done()]
            if live:
                t = live[ctx.choose(len(live), "which") if len(live) > 1 else 0]
                t["task"].cancel()
                t["cancelled"] = True
        else:
            if ctx.choose(2, "how far") and loop.queue:
                loop.step()
            else:
                loop.drain()
    loop.drain()
    for t in readers:
        if t["cancelled"]:
            ctx.check(t["task"].done(), "a cancelled reader ends")
        elif t["values"]:
            ctx.check(t["task"].done() and t["done"], "setting wakes all waiting readers")
            ctx.cover("read")
        else:
            ctx.check(not t["task"].done(), "a reader waits until a value is set")
            ctx.cover("waiting")
    # everybody sees the most recent value from now on
    for k in keys:
        begin(k)
        begin(k)
    loop.drain()
    for t in readers[-4:]:
        if t["key"] in value:
            ctx.check(t["done"] and t["values"][-1] is value[t["key"]], "a reader gets the most recent value")
        else:
            ctx.check(not t["task"].done(), "a reader waits until a value is set")
    for k in keys:
        set_(k, 5)
    loop.drain()
    for t in readers:
        ctx.check(t["task"].done(), "setting wakes all waiting readers")
        if not t["cancelled"]:
            ctx.check(not t["task"].cancelled() and t["task"].exception() is None,
                      "one reader giving up does not disturb the others")
    for cond, name in seen:
        ctx.check(cond, name)
    ctx.check(not loop.errors, "nothing fails", loop.errors)


def step(ctx):
    """one reader or one value taking effect, from any state of two keys; the
    invariant: the state of a key is absent, waited for by any number of
    readers, or set to the value set last"""
    mod = world(ctx)
    loop = Loop()
    loop.on_set = lambda *a: None
    c = mod.Context(loop)
    need(c, "_storage")
    if not isinstance(c._storage, collections.defaultdict):
        raise core.Unsupported("values are not kept in a dictionary of futures")
    v0, v1 = ctx.pick((object(), None, Falsy()), "value before"), ctx.pick((object(), None, Falsy()), "value")
    pre, want = {}, {}
    for k in ("", "b"):
        st = ctx.pick(("absent", "waited", "set"), "state of %r" % k)
        if st != "absent":
            pre[k] = c._storage[k] = asyncio.Future(loop=loop)
            if st == "set":
                pre[k].set_result(v0)
                want[k] = v0
    witness = None
    if "" in pre and not pre[""].done():
        witness = asyncio.shield(pre[""]) if ctx.choose(2, "witness") else None
    op = ctx.pick(("set", "read", "give up"), "op")
    got = None
    if op == "set":
        c[""] = v1
        loop.drain()
        want[""] = v1
    elif op == "read":
        got = asyncio.ensure_future(c[""], loop=loop)
        loop.drain()
    else:
        got = asyncio.ensure_future(c[""], loop=loop)
        loop.drain()
        done = got.done()
        ctx.check(got.cancel() or done, "a reader can give up")
        loop.drain()
    # the invariant again
    for k in ("", "b"):
        f = c._storage.get(k) if k in c._storage else None
        if k in want:
            ctx.check(f is not None and f.done() and not f.cancelled() and f.exception() is None
                      and f.result() is want[k], "invariant: a key is set to the value set last")
            if k in pre and not (op == "set" and k == ""):
                ctx.check(f is pre[k], "invariant: a step changes its own key")
        else:
            ctx.check(f is None or not f.done(), "invariant: a key without value is not done")
            if k in pre:
                ctx.check(f is pre[k], "invariant: readers wait for the future of the key")
            elif k == "b" or op == "set":
                ctx.check(f is None, "invariant: a step changes its own key")
    # what the readers get
    if witness is not None:
        ctx.check(witness.done() == (op == "set"), "setting wakes all waiting readers")
        if op == "set" and witness.done():
            ctx.check(not witness.cancelled() and witness.exception() is None and witness.result() is v1,
                      "a reader gets the value set")
        ctx.cover("witness")
    if op == "read":
        ctx.check(got.done() == ("" in want), "a reader waits until a value is set")
        if got.done():
            ctx.check(not got.cancelled() and got.exception() is None and got.result() is want.get("", got),
                      "a reader gets the most recent value")
        else:
            # and is woken by the key's next value
            c[""] = v1
            loop.drain()
            ctx.check(got.done() and got.exception() is None and got.result() is v1, "a reader gets the value set")
        ctx.cover("read")
    if witness is not None:
        witness.cancel()
        loop.drain()
    ctx.check(not loop.errors, "nothing fails", loop.errors)


def loops(ctx):
    """contexts of several loops"""
    mod = world(ctx)
    ls = [Loop(), Loop()]
    for lp in ls:
        lp.on_set = lambda k, v: None
    cs = [mod.Context(lp) for lp in ls]

    def get(lp):
        try:
            return mod.get_context(lp)
        except Exception as e:
            return e
    for lp, c in zip(ls, cs):
        ctx.check(get(lp) is c, "each loop has its own context")
    a, b = ctx.choose(2, "which"), 1 - ctx.choose(2, "same")
    cs[a]["k"] = 1
    got = []

    async def read(c):
        got.append(await c["k"])
    t = asyncio.Task(read(cs[b]), loop=ls[b])
    for lp in ls:
        lp.drain()
    ctx.check(got == ([1] if a == b else []), "contexts are independent")
    cs[a].close()
    for lp, c in zip(ls, cs):
        if c is cs[a]:
            ctx.check(get(lp) is not c, "a closed context is gone")
            d = mod.Context(lp)
            ctx.check(get(lp) is d, "each loop has its own context")
            n = len(got)
            t2 = asyncio.Task(read(d), loop=lp)
            lp.drain()
            ctx.check(len(got) == n, "a new context is empty")
            t2.cancel()
            lp.drain()
        else:
            ctx.check(get(lp) is c, "closing a context leaves the others")
    t.cancel()
    for lp in ls:
        lp.drain()
    ls[a].closed = True
    try:
        mod.get_context(ls[a])
        ok = False
    except RuntimeError:
        ok = True
    ctx.check(ok, "a closed loop has no context")
    ctx.cover("end")


class Err(Exception):
    def __bool__(self):
        return False


def strict(ctx):
    mod = load("aiomisc._context_vars", transform=ctx.sym)
    need(mod, "StrictContextVar")
    e, e2 = Err("x"), Err("y")
    v, w = mod.StrictContextVar("A", e), mod.StrictContextVar("A", e2)
    want = None

    def run():
        nonlocal want
        for i in range(4):
            k = ctx.pick(("get", "set", "none", "falsy", "other"), "op")
            if k == "get":
                check(v, want, e)
            elif k == "other":
                w.set(7)
            else:
                want = {"set": object(), "none": None, "falsy": (Falsy(), 0, "", False)[ctx.choose(4, "value")]}[k]
                v.set(want)
        check(v, want, e)

    def check(v, want, e):
        try:
            got, err = v.get(), None
        except Exception as x:
            got, err = None, x
        if want is None:
            ctx.check(err is e, "the exception is raised when no value is set")
            ctx.cover("unset")
        else:
            ctx.check(err is None and got is want, "the value set is given")
            ctx.cover("set")
    contextvars.copy_context().run(run)
    want = None
    contextvars.copy_context().run(lambda: check(v, None, e))


HARNESSES = [("step", step), ("history", history), ("loops", loops), ("strict", strict)]
_MOD = []


def fuzz(rng):
    """readers in the loop, values set in the loop and in threads"""
    if not _MOD:
        _MOD.append(simthreads.load("aiomisc.context"))
    mod = _MOD[0]

    async def main(loop, sched):
        c = mod.Context(loop)
        keys = ["a", "b", 0]
        sets = {k: [] for k in keys}

        def put(k, v):
            sets[k].append(v)
            c[k] = v

        def thread(me):
            for i in range(rng.randrange(4)):
                simthreads.time.sleep(rng.choice((0, 0.01, 0.5)))
                put(rng.choice(keys), (me, i))
        ts = [simthreads.Thread(target=thread, args=(i,)) for i in range(rng.randrange(3))]
        for t in ts:
            t.start()
        readers = []

        async def read(k):
            before = list(sets[k])
            v = await c[k]
            assert v in sets[k], "a value which was not set"
            if len(before) > 1:
                pass
            return v
        for i in range(rng.randrange(1, 10)):
            r = rng.random()
            if r < 0.4:
                k = rng.choice(keys)
                readers.append((k, loop.create_task(read(k)), rng.random() < 0.3))
            elif r < 0.6:
                put(rng.choice(keys), ("main", i))
            elif r < 0.8:
                await asyncio.sleep(rng.choice((0, 0.01, 0.4)))
            else:
                for k, t, cancel in readers:
                    if cancel and not t.done() and rng.random() < 0.5:
                        t.cancel()
        while not all(t._t.done for t in ts):
            await asyncio.sleep(1)
        for k, t, cancel in readers:
            if cancel:
                t.cancel()
        await asyncio.sleep(1)
        for k, t, cancel in readers:
            assert t.done() == (cancel or bool(sets[k])), "a reader is not woken"
            if t.done() and not cancel:
                assert not t.cancelled(), "a reader is cancelled with another one"
                t.result()
        for k in keys:
            if sets[k]:
                t = loop.create_task(read(k))
                v = await asyncio.wait_for(t, 5)
                last = {}
                for x in sets[k]:
                    last[x[0]] = x
                assert v in last.values(), "not the most recent value"
                if len(last) == 1:
                    assert v == sets[k][-1], "not the most recent value"
        for k, t, cancel in readers:
            t.cancel()
        await asyncio.sleep(0)
        c.close()
        assert not loop.errors, loop.errors
        assert not sched.errors, sched.errors
    simthreads.run(rng, main, [mod])


FUZZ = [("schedules", fuzz)]
FUZZ_S = 4
