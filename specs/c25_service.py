"""C25: aiomisc.service.base."""
import asyncio
import copy
import functools
import io
import itertools
import pickle
import sys

from pyvc import core
from pyvc.aio import NS, Exc, Ret, SomeSet, Suspend, close_coro, drive
from pyvc.load import load, need

ASSUME = ["cancel_tasks keeps its contract (C08); loop.create_task gives a new task",
          "the effective value of __required__/__async_required__ is the one of the class or of its first base "
          "which has one (a derived class replaces it)",
          "tasks created while the service is stopping are left out"]
BOUNDED = {"create": "three argument names", "methods": "three methods, two levels of classes",
           "pickling": "three argument names", "stopping": "three tasks"}
CONTRACTS = ["ServiceMeta.__new__ (every combination of start, stop and one more method in a two level hierarchy)",
             "Service.__init__/__setattr__/__getattr__/__getstate__/__setstate__ (every set of required and given "
             "arguments out of three, for all values; copies and pickles of every protocol)",
             "TaskStoreBase.create_task/stop (one step from any set of tasks)", "SimpleServer.stop"]


class Thing:
    """an opaque value"""

    def __init__(self, n=1):
        self.n = n

    def __bool__(self):
        return bool(self.n)

    def __deepcopy__(self, memo):
        return self


def module(ctx):
    mod = load("aiomisc.service.base", transform=ctx.sym)
    need(mod, "Service", "TaskStoreBase", "SimpleServer", "SimpleClient")
    return mod


def guard(f):
    def h(ctx):
        try:
            f(ctx)
        except (core.PathEnd, core.Unsupported, core.Discard, core.Restart):
            raise
        except Exception as e:
            ctx.check(False, "no operation fails by itself", repr(e))
    h.__name__ = f.__name__
    h.__doc__ = f.__doc__
    return h


NAMES = ("a", "b", "_c")
SUBSETS = [s for n in range(4) for s in itertools.combinations(NAMES, n)]
HERE = sys.modules[__name__]


def define(mod, base, required, defaults=(), sub=None, name="Made"):
    dct = {"__module__": __name__, "__qualname__": name}
    if required is not None:
        dct["__required__"] = required

    async def start(self):
        return 1
    dct["start"] = start
    for d in defaults:
        dct[d] = DEFAULT
    cls = type(base)(name, (base,), dct)
    if sub is not None:
        d2 = {"__module__": __name__, "__qualname__": name}
        if sub != "inherit":
            d2["__required__"] = sub
        cls = type(cls)(name, (cls,), d2)
    setattr(HERE, name, cls)        # for pickle
    return cls


DEFAULT = Thing()
FORMS = {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset}


def create(ctx):
    """missing arguments, attributes which are set"""
    mod = module(ctx)
    base = getattr(mod, ctx.pick(("Service", "TaskStoreBase", "SimpleServer", "SimpleClient"), "base"))
    required = SUBSETS[ctx.choose(len(SUBSETS), "required")]
    given = SUBSETS[ctx.choose(len(SUBSETS), "given")]
    defaults = ctx.pick(((), ("a",)), "defaults")
    sub = ctx.pick((None, "inherit", ("b",), ()), "derived")
    form = FORMS[sorted(FORMS)[ctx.choose(4, "form")]] if not ctx.sym else \
        (list if len(required) == 2 else tuple)
    cls = define(mod, base, form(required), defaults, sub)
    effective = set(sub if isinstance(sub, tuple) else required)
    values = {k: ctx.pick((Thing(1), Thing(0), None), "value") if k == "a" else Thing() for k in given}
    try:
        s = cls(**values)
        err = None
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        s, err = None, e
    ctx.check((err is not None) == bool(effective - set(given)), "a service is created unless a required argument is "
              "missing", (effective, given, err))
    if err is not None:
        ctx.check(isinstance(err, AttributeError), "a missing argument is an AttributeError", err)
        ctx.cover("missing")
        return
    for k in NAMES:
        if k in given:
            ctx.check(getattr(s, k, values) is values[k], "the given arguments are attributes")
        elif k in defaults:
            ctx.check(getattr(s, k) is DEFAULT, "only the given arguments are attributes")
            ctx.check(k not in vars(s), "only the given arguments are attributes")
        else:
            ctx.check(not hasattr(s, k), "only the given arguments are attributes")
    ctx.check(vars(cls).get("a", None) in (None, DEFAULT), "the class is not changed")
    other = cls(**{k: Thing() for k in given})
    ctx.check(all(getattr(s, k) is values[k] for k in given), "services do not influence each other")
    ctx.cover("created")


class Pickler(pickle.Pickler):
    def __init__(self, *a, **k):
        self.things = k.pop("things")
        super().__init__(*a, **k)

    def persistent_id(self, x):
        if isinstance(x, Thing):
            for i, t in enumerate(self.things):
                if t is x:
                    return str(i)
            self.things.append(x)
            return str(len(self.things) - 1)


class Unpickler(pickle.Unpickler):
    things = None

    def persistent_load(self, i):
        return self.things[int(i)]


def clone(s, how):
    if how == "copy":
        return copy.copy(s)
    if how == "deepcopy":
        return copy.deepcopy(s)
    f, things = io.BytesIO(), []
    Pickler(f, how, things=things).dump(s)
    u = Unpickler(io.BytesIO(f.getvalue()))
    u.things = things
    return u.load()


def pickling(ctx):
    """a pickle has the current values of the arguments"""
    mod = module(ctx)
    base = getattr(mod, ctx.pick(("Service", "TaskStoreBase", "SimpleServer"), "base"))
    cls = define(mod, base, ctx.pick(((), ("a",)), "required"), ctx.pick(((), ("a", "b")), "defaults"))
    given = [s for s in SUBSETS if not cls.__required__ - set(s)]
    given = given[ctx.choose(len(given), "given")]
    new = ctx.pick((Thing, lambda: None, lambda: Thing(0)), "values")
    want = {k: new() for k in given}
    s = cls(**want)
    for _ in range(1 if ctx.sym else 3):
        k = ctx.pick((None,) + NAMES, "assigned")
        if k is None:
            break
        v = ctx.pick((Thing(1), Thing(0), None), "value")
        setattr(s, k, v)
        ctx.check(getattr(s, k) is v, "an attribute has the value assigned")
        if k in given:
            want[k] = v
    how = ctx.pick((0, 2, "copy"), "how") if ctx.sym else \
        ctx.pick((0, 1, 2, 3, 4, 5, "copy", "deepcopy"), "how")

    def look(t):
        ctx.check(type(t) is cls and t is not s, "a pickle gives another service of the class")
        for k in NAMES:
            if k in want:
                ctx.check(getattr(t, k, look) is want[k], "a pickle has the current values")
            elif hasattr(cls, k):
                pass
            else:
                ctx.check(not hasattr(t, k), "a pickle has the arguments only")
    t = clone(s, how)
    look(t)
    # and so has a pickle of the pickle, changed
    k = ctx.pick(NAMES, "assigned")
    if k in want and ctx.choose(2, "again"):
        want[k] = Thing()
        old = getattr(s, k)
        setattr(t, k, want[k])
        if how != "copy":
            ctx.check(getattr(s, k) is old, "services do not influence each other")
        s2, s = s, t
        look(clone(t, how))
    ctx.cover("pickled")


async def coroutine(self, *a):
    pass


def plain(self, *a):
    pass


async def agen(self, *a):
    yield


def returns_coroutine(self, *a):
    return coroutine(self)


class Awaiting:
    async def __call__(self, *a):
        pass


@functools.wraps(coroutine)
def wrapped(self, *a):
    return 5


KINDS = {"coroutine": (coroutine, True), "plain": (plain, False), "lambda": (lambda self: None, False),
         "agen": (agen, False), "returns": (returns_coroutine, False), "class": (Thing, False),
         "wrapped": (wrapped, False), "static": (staticmethod(coroutine), True), "none": (None, False)}


def methods(ctx):
    """start, stop and further methods have to be coroutine functions"""
    mod = module(ctx)
    base = getattr(mod, ctx.pick(("Service", "TaskStoreBase"), "base"))
    kinds = sorted(KINDS)

    def one(base, names, required, depth):
        dct = {"__module__": __name__}
        if required is not None:
            dct["__async_required__"] = required
        for n in names:
            f, ok = KINDS[kinds[ctx.choose(len(kinds), n)]]
            dct[n] = f
            state[n] = ok
        effective = required if required is not None else state["required"]
        state["required"] = effective
        want = all(state.get(n, False) for n in effective)
        try:
            cls = type(base)("M", (base,), dct)
            got = True
        except (core.PathEnd, core.Unsupported):
            raise
        except Exception as e:
            cls, got = None, False
            ctx.check(isinstance(e, (TypeError, AttributeError)), "a class is rejected with a TypeError", repr(e))
        ctx.check(got == want, "a class is rejected if a method is not a coroutine function",
                  (names, effective, dct, want))
        return cls
    state = {"start": True, "stop": True, "required": ("start", "stop")}
    # the first class
    which = ctx.pick((("start",), ("stop",), ("start", "stop"), ("more",), ()), "methods")
    req = ctx.pick((None, ("start", "stop", "more"), ("more",)), "required")
    cls = one(base, which, req, 0)
    if cls is None:
        ctx.cover("rejected")
        return
    # a class derived from it
    which = ctx.pick((("start",), ("stop",), ("more",)), "methods")
    cls = one(cls, which, ctx.pick((None, ("start", "stop")), "required"), 1)
    ctx.cover("rejected" if cls is None else "accepted")


class ModelTask:
    def __init__(self, w, coro):
        self.w, self.coro = w, coro
        self.callbacks = []
        self.is_done = False
        self.is_cancelled = False

    def cancelled(self):
        return self.is_cancelled

    def exception(self):
        if self.is_cancelled:
            raise asyncio.CancelledError
        return None

    def add_done_callback(self, f, **k):
        self.callbacks.append(f)

    def done(self):
        return self.is_done

    def finish(self):
        self.is_done = True
        for f in self.callbacks:
            f(self)


def service(ctx, mod, name, w):
    base = getattr(mod, name)

    class S(base):
        async def start(self):
            pass
    s = S()

    class Loop:
        def create_task(self, coro, **k):
            t = ModelTask(w, coro)
            w.append(t)
            return t
    s.loop = Loop()
    return s


def step(ctx):
    """a task is kept from its creation to its end; others are not touched"""
    mod = module(ctx)
    w = []
    s = service(ctx, mod, ctx.pick(("TaskStoreBase", "SimpleServer", "SimpleClient"), "class"), w)
    ctx.check(isinstance(s.tasks, set) and not s.tasks, "a new service has no tasks")
    if not isinstance(s.tasks, set):
        raise core.Unsupported("tasks are not kept in a set")
    m = s.tasks = SomeSet(ctx)
    coro = Thing()
    t = s.create_task(coro)
    ctx.check(len(w) == 1 and t is w[0] and t.coro is coro, "a task of the coroutine is created")
    ctx.check(len(m.added) == 1 and m.added[0] is t and not m.removed, "a running task is kept")
    t.is_cancelled = bool(ctx.choose(2, "cancelled"))
    t.finish()
    ctx.check(all(x is t for x in m.added + m.removed), "other tasks are not touched")
    ctx.cover("end")


def stopping(ctx):
    """all tasks which run are cancelled, and waited for"""
    mod = module(ctx)
    w = []
    calls = []

    def cancel_tasks(tasks):
        calls.append([t for t in tasks])
        return Suspend("cancelled", calls[-1])
    mod.cancel_tasks = cancel_tasks
    s = service(ctx, mod, ctx.pick(("TaskStoreBase", "SimpleServer", "SimpleClient"), "class"), w)
    closed = []

    class Server:
        def close(self):
            closed.append(1)
    has = False
    if isinstance(s, mod.SimpleServer):
        ctx.check(s.server is None, "a new server has no server")
        has = bool(ctx.choose(2, "server"))
        if has:
            s.server = Server()
    n = ctx.choose(4, "tasks")
    for i in range(n):
        s.create_task(Thing())
    for t in w:
        if ctx.choose(2, "done"):
            t.is_cancelled = bool(ctx.choose(2, "cancelled"))
            t.finish()
            if ctx.choose(2, "late"):
                t.late = True
                s.tasks.add(t)          # done, but its callbacks have not been called yet
    e = ctx.pick((None, ValueError()), "reason")
    waited = []

    def handler(q):
        ctx.check(q.kind == "cancelled", "stopping waits for the tasks")
        for t in q.args[0]:
            if not t.done():
                t.finish()
        waited.append(1)
        return Ret(None)
    running = [t for t in w if not t.done()]
    st, v = drive(s.stop(e) if ctx.choose(2, "with reason") else s.stop(), handler)
    ctx.check(st == "ret", "stopping does not fail", v)
    if running:
        ctx.check(any(t is x for c in calls for x in c for t in running[:1]), "running tasks are cancelled")
    for t in running:
        ctx.check(any(t is x for c in calls for x in c), "running tasks are cancelled")
        ctx.check(t.done(), "stopping waits for the tasks")
    for c in calls:
        ctx.check(all(any(x is t for t in w) for x in c), "no other tasks are cancelled")
    ctx.check(bool(closed) == has, "the server is closed")
    ctx.cover("stopped")


def stop_any(ctx):
    """any number of tasks: all of them are given to cancel_tasks (C08), and
    waited for"""
    mod = module(ctx)
    s = service(ctx, mod, ctx.pick(("TaskStoreBase", "SimpleServer", "SimpleClient"), "class"), [])
    if not isinstance(s.tasks, set):
        raise core.Unsupported("tasks are not kept in a set")
    m = s.tasks = SomeSet(ctx)
    calls, ended = [], []

    def cancel_tasks(tasks):
        if not isinstance(tasks, SomeSet):
            raise core.Unsupported("cancel_tasks(%s)" % type(tasks))
        ctx.check(tasks.of is m and not tasks.part and not tasks.removed,
                  "all the tasks are cancelled, and no others")
        calls.append(1)
        return Suspend("cancelled")
    mod.cancel_tasks = cancel_tasks
    mod.set = mod.frozenset = lambda x=(): x.copy() if isinstance(x, SomeSet) else set(x)
    e = ctx.pick((None, ValueError()), "reason")
    if isinstance(s, mod.SimpleServer) and ctx.choose(2, "server"):
        class Server:
            def close(self):
                pass
        s.server = Server()

    def handler(q):
        ctx.check(q.kind == "cancelled", "stopping waits for the tasks")
        ended.append(1)
        return Ret(None)
    st, v = drive(s.stop(e) if ctx.choose(2, "with reason") else s.stop(), handler)
    ctx.check(st == "ret", "stopping does not fail", v)
    ctx.check(len(calls) == len(ended), "stopping waits for the tasks")
    if not calls:
        ctx.check(m.size is not None and m.size == 0, "all the tasks are cancelled, and no others")
    ctx.cover("stopped")


def start_event(ctx):
    """the start event belongs to one start"""
    mod = module(ctx)

    class S(mod.Service):
        async def start(self):
            pass
    s = S()
    try:
        s.start_event
        ctx.check(False, "a service which has no loop has no start event")
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.check(isinstance(e, (RuntimeError, AttributeError)), "a service which has no loop has no start event", e)
    loop = Thing()
    s.set_loop(loop)
    a = s.start_event
    ctx.check(s.loop is loop and s.start_event is a and not a.is_set(), "a service has a loop and a start event")
    s.set_loop(Thing())
    ctx.check(not s.start_event.is_set() and s.start_event is not a, "every start has its own event")
    ctx.cover("end")


HARNESSES = [(h.__name__, guard(h)) for h in (create, pickling, methods, step, stop_any, stopping, start_event)]


def fuzz_tasks(rng):
    """services with tasks of all kinds are stopped"""
    import aiomisc.service.base as base
    from pyvc import simloop

    async def main(loop):
        cls = rng.choice((base.TaskStoreBase, base.SimpleServer, base.SimpleClient))

        class S(cls):
            async def start(self):
                pass
        services = [S() for _ in range(2)]
        other = []
        for s in services:
            s.set_loop(loop)
        ts = {s: [] for s in services}

        async def work(i):
            k = i[0]
            try:
                await asyncio.sleep(i[1])
                if k == 3:
                    raise KeyError("x")
                return 1
            except asyncio.CancelledError:
                i.append("cancelled")
                if k == 1:
                    await asyncio.sleep(i[2])
                if k == 2:
                    return 5        # swallowed
                if k == 4:
                    raise ValueError("y")
                raise
        for _ in range(rng.randrange(8)):
            info = [rng.randrange(5), rng.choice((0, 1, 2, 5)), rng.choice((0, 1, 3))]
            s = rng.choice(services)
            if rng.random() < 0.2:
                other.append((loop.create_task(work(info)), info))
            else:
                t = s.create_task(work(info))
                assert isinstance(t, asyncio.Task)
                ts[s].append((t, info))
        await asyncio.sleep(rng.choice((0, 0, 0.5, 1, 1.5, 2)))
        s = services[0]
        for t, _ in ts[s]:
            # somebody cancels one task
            if rng.random() < 0.2:
                t.cancel()
                if rng.random() < 0.7:
                    await asyncio.sleep(0)
        running = [(t, i) for t, i in ts[s] if not t.done()]
        before = {id(t): len(i) for t, i in other + ts[services[1]]}
        await s.stop(rng.choice((None, ValueError())))
        for t, i in running:
            assert t.done(), "stopped before a task has ended"
        for t, i in other + ts[services[1]]:
            assert len(i) == before[id(t)], "a task of someone else was cancelled"
        assert all(t.done() for t, _ in ts[s])
        await services[1].stop()
        assert all(t.done() for t, _ in ts[services[1]])
        for t, _ in other + ts[s] + ts[services[1]]:
            t.cancel()
        await asyncio.gather(*[t for t, _ in other + ts[s] + ts[services[1]]], return_exceptions=True)
    simloop.run(main)


def fuzz_server(rng):
    """a TCP server with clients is stopped"""
    import aiomisc.service as svc
    import socket
    import os
    import shutil
    import tempfile
    log = []
    d = tempfile.mkdtemp(prefix="c25-")

    async def main():
        class S(svc.TCPServer):
            async def handle_client(self, reader, writer):
                log.append("open")
                try:
                    await reader.read()
                finally:
                    log.append("cancelled")
                    await asyncio.sleep(0)
                    writer.close()
                    log.append("closed")
        sock = socket.socket(socket.AF_UNIX)
        sock.bind(os.path.join(d, "s"))
        s = S(sock=sock)
        s.set_loop(asyncio.get_running_loop())
        await s.start()
        n = rng.randrange(3)
        cs = []
        for _ in range(n):
            cs.append(await asyncio.open_unix_connection(os.path.join(d, "s")))
        while log.count("open") < n:
            await asyncio.sleep(0)
        await asyncio.wait_for(s.stop(), 20)
        assert log.count("closed") == n, "stopped before a client's task has ended"
        assert not s.server.is_serving(), "the server is closed"
        for r, w in cs:
            w.close()
    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(d)


FUZZ = [("tasks", fuzz_tasks), ("server", fuzz_server)]
FUZZ_S = 3
