"""C06: aiomisc.pool."""
import asyncio

from pyvc import aio, core
from pyvc.aio import Exc, NS, Ret, Suspend, drive
from pyvc.core import conj, disj, iff, implies
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["asyncio.Queue/Semaphore are used through their contracts",
          "instances are hashable by identity",
          "_destroy_instance does not raise CancelledError by itself"]
CONTRACTS = ["PoolBase.__acquire (slot and instance ownership balance)",
             "PoolBase.__release", "PoolBase.__create_new_instance (inlined)",
             "PoolBase.__recycle_instance (inlined)", "PoolBase.__recycler",
             "PoolBase.close (any number of instances)"]


class Failed(Exception):
    pass


class Inst:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "inst%s" % self.n


class G:
    """ghost state of one call"""


def setup(ctx, recycle):
    mod = load("aiomisc.pool", transform=ctx.sym)
    loop = aio.Loop(ctx, ctx.real("now", 0))
    g = G()
    g.slot = 0          # capacity slots owned by the running call
    g.inst = []         # instances owned by the running call
    g.checked = None    # the instance whose check succeeded last
    g.destroyed = []
    g.len = 0
    # what waits in the queue of the free instances, whoever put it there
    g.tokens = ctx.int("tokens", 0)
    g.ready = ctx.int("ready", 0)
    # this call took a token and has not looked for a free slot yet
    g.hand = 0

    class Task:
        def add_done_callback(self, f):
            pass

    def create_task(coro):
        aio.close_coro(coro)
        return Task()
    loop.create_task = create_task

    class Sem:
        def __init__(self, n):
            self.value = n

        def locked(self):
            return self.value <= 0

        async def acquire(self):
            if self.value <= 0:
                await Suspend("semaphore")
            self.value = self.value - 1
            g.slot = g.slot + 1
            return True

        def release(self):
            ctx.check(g.slot >= 1, "a slot is given back at most once")
            self.value = self.value + 1
            g.slot = g.slot - 1

    class Queue:
        kind = None

        def put_nowait(self, x):
            if self.kind == "bin":
                ctx.check(x in g.inst, "only an instance taken out of service is recycled")
                ctx.check(x not in pool._used, "an instance in use is not recycled")
                g.inst.remove(x)
                g.destroyed.append(x)
                return
            if isinstance(x, Inst):
                ctx.check(x in g.inst, "only an own, living instance is given back")
                ctx.check(x not in g.destroyed, "a destroyed instance is never given back")
                ctx.check(x not in pool._used, "a free instance is not in use")
                g.inst.remove(x)
                g.slot = g.slot - 1
                g.put = x
                g.ready = g.ready + 1
            else:
                g.tokens = g.tokens + 1

        async def put(self, x):
            self.put_nowait(x)

        async def get(self):
            ctx.check(g.slot == 0 and not g.inst,
                      "nothing is owned while waiting for an instance")
            r = await Suspend("get", self)
            if isinstance(r, Inst):
                ctx.assume(g.ready >= 1)
                g.ready = g.ready - 1
                g.slot = g.slot + 1
                g.inst.append(r)
            else:
                ctx.assume(g.tokens >= 1)
                g.tokens = g.tokens - 1
                g.hand = 1
            return r

        def qsize(self):
            return g.tokens + g.ready

        def empty(self):
            return bool(g.tokens + g.ready <= 0)

    mod.asyncio = NS(asyncio, Queue=Queue, Semaphore=Sem, Lock=lambda: None)
    mod.log = aio.Sink()
    u = ctx.real("random", 0, 1)
    ctx.assume(u < 1)
    mod.random = lambda: u
    counter = [0]

    class Pool(mod.PoolBase):
        async def _create_instance(self):
            await Suspend("create")
            counter[0] += 1
            i = Inst(counter[0])
            ctx.check(g.slot >= 1, "an instance is created only with a capacity slot")
            g.inst.append(i)
            g.len += 1
            g.born = loop.now
            return i

        async def _destroy_instance(self, i):
            await Suspend("destroy", i)

        async def _check_instance(self, i):
            ctx.check(i in g.inst, "only an own instance is checked")
            ctx.check(i not in self._used, "an instance is checked before it is in use")
            g.checked = None
            r = await Suspend("check", i)
            if r:
                g.checked = i
            return r

    # constructing needs a running loop
    Pool.loop = loop
    pool = Pool(maxsize=1, recycle=recycle)
    need(pool, "_instances", "_recycle_bin", "_semaphore", "_used", "_len",
         "_recycle_times")
    pool._recycle_bin.kind = "bin"
    pool._recycle_times.default_factory = loop.time
    pool._semaphore.value = ctx.int("free", 0)
    pool._len = ctx.int("len", 0)
    g.waits = hasattr(pool, "_waiters")
    g.own = 0
    if g.waits:
        others(ctx, pool, g)
    return mod, loop, pool, g


def no_lost_wakeup(pool, g, own=0):
    """somebody waits in vain only when there is no room: each waiter has
    something to take, or each free slot has a token which sends a waiter
    to it"""
    return disj(g.w + own <= g.tokens + g.ready,
                pool._semaphore.value <= g.tokens + g.hand)


def turn(ctx, pool, g, own=0):
    """other users act; ``own`` of the waiters is this call"""
    if not g.waits:
        return
    g.hand = 0
    counted = pool._waiters - g.w
    ctx.check(counted >= own, "waiters are counted")
    ctx.check(no_lost_wakeup(pool, g, own), "nobody waits while there is room")
    others(ctx, pool, g, own)
    pool._waiters = g.w + counted


def others(c, pool, g, own=0):
    g.w = c.int("waiters", 0)
    g.tokens = c.int("tokens", 0)
    g.ready = c.int("ready", 0)
    # the count may exceed those who wait, it misses nobody
    pool._waiters = g.w + own + c.int("counted in excess", 0)
    pool._semaphore.value = c.int("free", 0)
    c.assume(no_lost_wakeup(pool, g, own))


def acquire(ctx):
    recycle = None
    if ctx.choose(2, "recycle given"):
        recycle = ctx.real("recycle", 0)
        ctx.assume(recycle > 0)
    mod, loop, pool, g = setup(ctx, recycle)
    need(pool, "_PoolBase__acquire")
    wake = getattr(pool, "_WAKEUP", None)
    st = {"cancelled": False, "create_failed": None, "len0": pool._len}

    def havoc(c):
        pool._semaphore.value = c.int("free", 0)
        if g.waits:
            g.hand = 1
            others(c, pool, g)
        pool._len = c.int("len", 0)
        st["len0"] = pool._len
        g.len = 0
        g.destroyed = []
        g.checked = None

    def inv(c):
        out = [(g.slot == 0 and not g.inst, "nothing is owned between two tries"),
               (pool._len == st["len0"] + g.len - len(g.destroyed),
                "len() counts the instances in service"),
               (not pool._used, "an instance not handed out is not in use")]
        if g.waits:
            out += [(pool._waiters >= g.w, "waiters are counted"),
                    (no_lost_wakeup(pool, g), "nobody waits while there is room")]
        return out
    ctx.loops = {("while",): Cut(havoc, inv, obj=lambda c, n, v: v)}

    def handler(req):
        loop.advance()
        turn(ctx, pool, g, req.kind == "get")
        if req.kind == "semaphore":
            # somebody else gave a slot back, or cancelled
            if ctx.choose(2, "cancelled"):
                st["cancelled"] = True
                return Exc(asyncio.CancelledError())
            ctx.assume(pool._semaphore.value >= 1)
            return Ret(None)
        if req.kind == "create":
            k = ctx.pick(("ok", "fails", "cancelled"), "create")
            if k == "fails":
                st["create_failed"] = Failed("create")
                return Exc(st["create_failed"])
            if k == "cancelled":
                st["cancelled"] = True
                return Exc(asyncio.CancelledError())
            return Ret(None)
        if req.kind == "get":
            opts = ["instance", "cancelled"] + (["wakeup"] if wake is not None else [])
            k = ctx.pick(opts, "get")
            if k == "cancelled":
                st["cancelled"] = True
                return Exc(asyncio.CancelledError())
            if k == "wakeup":
                return Ret(wake)
            other = Inst("other")
            pool._recycle_times[other] = ctx.real("deadline", 0)
            return Ret(other)
        if req.kind == "check":
            k = ctx.pick(("true", "false", "none", "raises", "cancelled"), "check")
            ctx.cover("check " + k)
            if k == "raises":
                return Exc(Failed("check"))
            if k == "cancelled":
                st["cancelled"] = True
                return Exc(asyncio.CancelledError())
            return Ret({"true": True, "false": False, "none": None}[k])
        raise core.Unsupported("await on " + req.kind)

    status, got = drive(pool._PoolBase__acquire(), handler)
    if status == "ret":
        ctx.cover("acquired")
        ctx.check(g.checked is got, "an acquired instance has just passed its check")
        ctx.check(got in pool._used and g.inst == [got], "the acquired instance is in use")
        ctx.check(got not in g.destroyed, "a retired instance is not handed out")
        ctx.check(g.slot == 1, "an acquired instance occupies one slot")
        ctx.check(not st["cancelled"], "cancellation is not swallowed")
    else:
        ctx.check(g.slot == 0, "a failing or cancelled acquire loses no capacity")
        ctx.check(not g.inst, "a failing or cancelled acquire loses no instance")
        ctx.check(not pool._used, "nothing is in use after a failed acquire")
        if st["cancelled"]:
            ctx.cover("cancelled")
            ctx.check(isinstance(got, asyncio.CancelledError), "cancellation passes through")
        else:
            ctx.cover("creation failed")
            ctx.check(got is st["create_failed"] and got is not None,
                      "only a failing creation fails the acquire")
    ctx.check(pool._len == st["len0"] + g.len - len(g.destroyed),
              "len() counts the instances in service")
    if g.waits:
        g.hand = 0
        ctx.check(pool._waiters >= g.w, "waiters are counted")
        ctx.check(no_lost_wakeup(pool, g), "nobody waits while there is room")


def create(ctx):
    """the recycle deadline of a new instance"""
    recycle = ctx.real("recycle", 0)
    ctx.assume(recycle > 0)
    mod, loop, pool, g = setup(ctx, recycle)
    need(pool, "_PoolBase__create_new_instance")
    ctx.assume(pool._semaphore.value >= 1)
    st = {}

    def handler(req):
        loop.advance()
        if req.kind == "create":
            return Ret(None)
        raise core.Unsupported(req.kind)
    status, got = drive(pool._PoolBase__create_new_instance(), handler)
    ctx.check(status == "ret", "creating succeeds")
    i = g.put
    d = pool._recycle_times[i]
    ctx.check(conj(d >= g.born + recycle, d <= g.born + 2 * recycle),
              "an instance expires between recycle and twice recycle")


def release(ctx):
    recycle = None
    if ctx.choose(2, "recycle given"):
        recycle = ctx.real("recycle", 0)
        ctx.assume(recycle > 0)
    mod, loop, pool, g = setup(ctx, recycle)
    need(pool, "_PoolBase__release")
    inst = Inst("x")
    deadline = ctx.real("deadline", 0)
    if recycle is not None:
        pool._recycle_times[inst] = deadline
    in_service = ctx.choose(2, "in service")
    if in_service:
        pool._used.add(inst)
        g.inst.append(inst)
        g.slot = 1
    else:
        # taken out of service (closed): destroyed already
        g.destroyed.append(inst)
    len0, n0 = pool._len, len(g.destroyed)
    free0 = pool._semaphore.value

    def handler(req):
        raise core.Unsupported("release suspends")
    status, got = drive(pool._PoolBase__release(inst), handler)
    ctx.check(status == "ret", "releasing does not fail")
    if g.waits:
        ctx.check(pool._waiters >= g.w, "waiters are counted")
        ctx.check(no_lost_wakeup(pool, g), "nobody waits while there is room")
    ctx.check(inst not in pool._used, "a released instance is not in use")
    ctx.check(g.slot == 0 and not g.inst, "release gives everything back")
    if not in_service:
        ctx.cover("closed")
        ctx.check(len(g.destroyed) == n0 and pool._len == len0,
                  "an instance out of service is not given back")
        return
    if recycle is not None and deadline < loop.now:
        ctx.cover("expired")
        ctx.check(g.destroyed == [inst] and pool._len == len0 - 1
                  and pool._semaphore.value == free0 + 1,
                  "an expired instance is taken out of service")
    else:
        ctx.cover("reused")
        ctx.check(not g.destroyed and pool._len == len0
                  and pool._semaphore.value == free0,
                  "a usable instance is kept for reuse")


def recycler(ctx):
    """each instance of the bin is destroyed exactly once, failures do not
    stop the recycler"""
    mod, loop, pool, g = setup(ctx, None)
    need(pool, "_PoolBase__recycler")
    st = {"got": 0, "destroyed": 0, "done": 0, "cur": None}

    class Bin:
        async def get(self):
            st["cur"] = await Suspend("bin")
            st["got"] += 1
            return st["cur"]

        def task_done(self):
            st["done"] += 1
    pool._recycle_bin = Bin()

    def inv(c):
        return [(st["got"] == st["destroyed"], "every instance was destroyed"),
                (st["got"] == st["done"], "every instance is accounted for")]

    def havoc(c):
        pass
    ctx.loops = {("while",): Cut(havoc, inv, obj=lambda c, n, v: v)}

    def handler(req):
        if req.kind == "bin":
            if ctx.choose(2, "cancelled"):
                return Exc(asyncio.CancelledError())
            return Ret(Inst("r"))
        if req.kind == "destroy":
            ctx.check(req.args[0] is st["cur"], "the recycled instance is destroyed")
            st["destroyed"] += 1
            if ctx.choose(2, "destroy fails"):
                return Exc(Failed("destroy"))
            return Ret(None)
        raise core.Unsupported(req.kind)
    status, got = drive(pool._PoolBase__recycler(), handler)
    ctx.check(status == "exc" and isinstance(got, asyncio.CancelledError),
              "the recycler only ends when cancelled")


class Bag(SymSeq):
    """a collection of instances: the one of interest, and any number of others"""

    def __init__(self, ctx, g, has, others, tokens=False):
        self.ctx, self.g, self.has, self.others, self.tokens = ctx, g, has, others, tokens
        j = ctx.int("place", 0)
        ctx.assume(j <= others)
        SymSeq.__init__(self, others + (1 if has else 0), lambda i: self.pick(i), "instances",
                        j if has else None, lambda: Inst("other"))
        g.bags.append(self)

    @property
    def vc_num(self):
        return self.n

    def pick(self, i):
        if self.has and i is self.witness:
            return self.g.mine
        raise core.Unsupported("an element of a bag")

    def copy(self):
        return Bag(self.ctx, self.g, self.has, self.others, self.tokens)

    def clear(self):
        self.has, self.others, self.n, self.witness = False, 0, 0, None

    __vc_list__ = __vc_tuple__ = copy

    def append(self, x):
        if x is self.g.mine:
            self.ctx.check(not self.has, "an instance is destroyed once")
            self.has = True
            j = self.witness = self.ctx.int("place", 0)
            self.ctx.assume(j <= self.others)
        elif isinstance(x, Inst):
            self.others = self.others + 1
        else:
            self.tokens = True
        self.n = self.others + (1 if self.has else 0)

    add = append

    def take(self):
        """an element, taken out"""
        if self.has and self.ctx.choose(2, "the instance"):
            self.has, self.witness = False, None
            x = self.g.mine
        elif self.others > 0:
            self.others = self.others - 1
            x = Inst("other")
        else:
            raise core.PathEnd
        self.n = self.others + (1 if self.has else 0)
        return x

    pop = take

    def __contains__(self, x):
        if x is self.g.mine:
            return self.has
        raise core.Unsupported("membership")


def close(ctx):
    """everything in service is destroyed once, and nothing else; nothing
    destroyed stays in service"""
    mod, loop, pool, g = setup(ctx, None)
    need(pool, "_used", "_instances", "_recycle_bin", "_tasks")
    wake = getattr(pool, "_WAKEUP", None)
    g.mine = mine = Inst("mine")
    g.bags = []
    where = ctx.pick(("used", "free", "out"), "the instance is")
    st = {"destroyed": [], "joined": 0, "waited": False, "raises": False}

    if ctx.sym:
        used = Bag(ctx, g, where == "used", ctx.int("others in use", 0))
        free = Bag(ctx, g, where == "free", ctx.int("others free", 0))
        del g.bags[:]
    else:
        free = [Inst("f%d" % i) for i in range(ctx.choose(3, "free"))]
        used = {Inst("u%d" % i) for i in range(ctx.choose(3, "in use"))}
        free = (free + [mine]) if where == "free" else free
        if wake is not None and ctx.choose(2, "token"):
            free.insert(ctx.choose(len(free) + 1, "place"), wake)
        if where == "used":
            used.add(mine)
        others = [i for i in list(used) + free if isinstance(i, Inst) and i is not mine]
    pool._used = used

    class Queue:
        tokens = ctx.bool("tokens") if ctx.sym and wake is not None else False

        def qsize(self):
            if not ctx.sym:
                return len(free)
            return free.n + ctx.int("waiting", 0) if self.tokens else free.n

        def empty(self):
            return not self.qsize() > 0

        def get_nowait(self):
            if ctx.sym:
                if self.tokens and ctx.choose(2, "a token"):
                    return wake
                if not free.n > 0:
                    if self.tokens:
                        return wake
                    raise asyncio.QueueEmpty
                return free.take()
            if not free:
                raise asyncio.QueueEmpty
            return free.pop(0)

        def put_nowait(self, x):
            raise core.Unsupported("something is put back by close")

    class Bin:
        def join(self):
            st["joined"] += 1

            async def joined():
                pass
            return joined()

        def put_nowait(self, x):
            raise core.Unsupported("close uses the recycler")

        put = get = get_nowait = put_nowait
    pool._instances = Queue()
    pool._recycle_bin = Bin()

    class Task:
        def __init__(self, coro):
            if isinstance(coro, Nothing):
                st["raises"] = fails
            else:
                r, e = drive(coro, lambda q: Exc(Failed("destroy")) if fails else Ret(None))
                if r == "exc":
                    st["raises"] = True

        def add_done_callback(self, f):
            pass

        def __await__(self):
            yield Suspend("destroyed", self)
    loop.create_task = Task
    fails = ctx.choose(2, "destroying fails")

    class Nothing:
        def __await__(self):
            yield Suspend("destroy")

    def destroy(x):
        ctx.check(isinstance(x, Inst), "only instances are destroyed")
        st["destroyed"].append(x)
        return Nothing()
    pool._destroy_instance = destroy

    class Gather:
        def __call__(self, *a, return_exceptions=False):
            return self.__vc_symparts__([(False, x) for x in a],
                                        return_exceptions=return_exceptions)

        def __vc_symparts__(self, parts, return_exceptions=False):
            for star, x in parts:
                if star and isinstance(x, SymSeq):
                    if x.witness is not None:
                        x.at(x.witness)
                    if x.generic is not None:
                        x.generic()
                else:
                    for y in (x if star else (x,)):
                        aio.close_coro(y)
            # the others are of no interest, their destruction is a copy
            ctx.check(return_exceptions or not st["raises"],
                      "a failing destruction does not end the waiting")

            async def go():
                clean("while the instances are being destroyed")
                await Suspend("gather")
            return go()

    def clean(when):
        if ctx.sym:
            ctx.check(not pool._used.has if isinstance(pool._used, Bag) else
                      mine not in pool._used, "nothing is in use " + when)
            ctx.check(not free.has, "nothing is handed out again " + when)
        else:
            ctx.check(not pool._used, "nothing is in use " + when)
            ctx.check(not [i for i in free if isinstance(i, Inst)],
                      "nothing is handed out again " + when)

    async def wait_for(aw, timeout=None):
        if timeout is not None:
            ctx.check(timeout == limit, "the given limit is used")
        else:
            ctx.check(limit is None, "the given limit is used")
        await aw
        k = ctx.pick(("done", "late"), "waiting") if limit is not None else "done"
        if k == "late":
            st["late"] = True
            raise asyncio.TimeoutError
        st["waited"] = True

    def cancel_tasks(tasks):
        ctx.check(st["waited"], "the recycler works until the bin is empty")
        class F:
            def __await__(self):
                yield Suspend("cancelled")
        return F()
    mod.asyncio = NS(mod.asyncio, gather=Gather(), wait_for=wait_for,
                     create_task=Task, ensure_future=lambda x: x)
    mod.cancel_tasks = cancel_tasks
    limit = ctx.pick((None, 1.5), "timeout")
    total = 1 if where != "out" else 0

    def present():
        bags = [b for b in g.bags if not getattr(b, "gone", False)]
        if not isinstance(pool._instances, Queue):
            raise core.Unsupported("another queue")
        return int(free.has) + int(pool._used is used and used.has) + \
            sum(int(b.has) for b in bags)

    def havoc(c):
        st["moved"] = False
        if free.has and c.choose(2, "taken already"):
            free.has = free.witness = None
            free.has = False
            st["moved"] = True
        free.others = c.int("others free", 0)
        free.n = free.others + (1 if free.has else 0)

    def obj(c, name, v):
        if not isinstance(v, Bag):
            return v
        v.gone = True
        return Bag(c, g, v.has or st["moved"], c.int("others taken", 0),
                   bool(v.tokens))

    def inv(c):
        return [(present() == total, "the instance is in the pool or taken out, once")]
    ctx.loops = {("while",): Cut(havoc, inv, obj=obj)}
    status, got = drive(pool.close(limit), lambda q: Ret(None))
    clean("after close")
    n = [x is mine for x in st["destroyed"]].count(True)
    if where == "out":
        ctx.check(n == 0, "an instance out of service is not destroyed again")
    else:
        ctx.cover("destroyed " + where)
        ctx.check(n == 1, "an instance in service is destroyed exactly once")
    if not ctx.sym:
        for i in others:
            ctx.check(st["destroyed"].count(i) == 1,
                      "an instance in service is destroyed exactly once")
    ctx.check(st["joined"] == 1, "close waits for the instances in the recycler")
    if "late" in st:
        ctx.check(status == "exc", "the end of the time is reported")
    else:
        ctx.check(status == "ret", "closing succeeds")


HARNESSES = [("acquire", acquire), ("create", create), ("release", release),
             ("recycler", recycler), ("close", close)]


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.pool")
    maxsize = rng.choice((1, 1, 2, 3, 5))
    recycle = rng.choice((None, None, 1, 5, 20))
    p_create = rng.choice((0, 0, 0.2, 0.5))
    p_check = rng.choice((0, 0, 0.2, 0.5))
    p_cancel = rng.choice((0, 0, 0.3))
    p_destroy = rng.choice((0, 0.3))
    slow = rng.choice((0, 0, 0, 7, 70))
    calm = [False]

    async def lat():
        r = rng.random()
        if r < 0.4:
            return
        if r < 0.6:
            await asyncio.sleep(0)
        else:
            await asyncio.sleep(rng.random() * 2)

    class I:
        def __init__(self, n):
            self.n = n
            self.holder = None
            self.ok = False         # checked since the last release
            self.bad = False        # failed a check: must not be used again
            self.checking = 0
            self.destroyed = 0
            self.gone = False       # its destruction has ended
            self.born = None
            self.retire = None      # why it may be destroyed
    made = []

    # what an instance function raises may be swallowed by the pool
    faults = []

    def must(cond, what):
        if not cond:
            faults.append(what)
            raise AssertionError(what)

    async def main(loop):
        creating = [0]

        class P(mod.PoolBase):
            async def _create_instance(self):
                creating[0] += 1
                live = sum(1 for i in made if i.holder is not None)
                must(live + creating[0] <= maxsize, "more than maxsize instances")
                try:
                    await lat()
                    if not calm[0] and rng.random() < p_create:
                        raise Failed("create")
                finally:
                    creating[0] -= 1
                i = I(len(made))
                i.born = loop.time()
                made.append(i)
                return i

            async def _destroy_instance(self, i):
                i.destroyed += 1
                must(i.destroyed == 1, "instance destroyed twice")
                must(closed[0] or i.holder is None, "an instance in use was destroyed")
                must(closed[0] or i.retire, "a usable instance was destroyed")
                try:
                    await (asyncio.sleep(slow) if slow else lat())
                except asyncio.CancelledError:
                    must(False, "the destruction of an instance was cut off")
                i.gone = True
                if rng.random() < p_destroy:
                    raise Failed("destroy")

            async def _check_instance(self, i):
                must(not i.destroyed and not i.bad, "a retired instance is checked")
                must(i.holder is None and not i.checking, "an instance in use is checked")
                i.checking += 1
                try:
                    await lat()
                    r = rng.random()
                    if not calm[0] and r < p_check:
                        i.bad, i.retire = True, "check"
                        if r < p_check / 2:
                            raise Failed("check")
                        return rng.choice((False, None, 0))
                    i.ok = True
                    return True
                except asyncio.CancelledError:
                    i.retire = "cancelled"
                    raise
                finally:
                    i.checking -= 1
        closed = [False]
        pool = P(maxsize=maxsize, recycle=recycle)

        def used(i):
            i.holder = None
            age = loop.time() - i.born
            if recycle and age > recycle:
                i.retire = "expired"
                if age > 2 * recycle:
                    i.bad = True

        async def user(k):
            for _ in range(rng.randint(1, 4)):
                await asyncio.sleep(rng.choice((0, rng.random() * 3)))
                try:
                    async with pool.acquire() as i:
                        assert i.holder is None, "an instance has two users"
                        assert i.ok, "handed out without a successful check"
                        assert not i.destroyed and not i.bad, "a retired instance was handed out"
                        i.ok = False
                        i.holder = k
                        assert len(pool) <= maxsize, "len() over maxsize"
                        try:
                            assert sum(1 for x in made if x.holder is not None) <= maxsize, \
                                "more than maxsize instances in use"
                            await asyncio.sleep(rng.choice((0, rng.random() * 3)))
                        finally:
                            used(i)
                except Failed as e:
                    assert e.args == ("create",), "a failing check must not reach the user"

        tasks = [loop.create_task(user(k)) for k in range(rng.randint(1, 8))]

        async def killer(t):
            await asyncio.sleep(rng.random() * 8)
            t.cancel()
        ks = [loop.create_task(killer(t)) for t in tasks if rng.random() < p_cancel]
        res = await asyncio.gather(*tasks, return_exceptions=True)
        for r in res:
            if isinstance(r, Exception):
                raise r
        await asyncio.gather(*ks)
        calm[0] = True
        # the whole capacity is still there, and not more
        barrier = asyncio.Event()
        holding = []
        over = []

        async def hold():
            async with pool.acquire() as i:
                if len(holding) >= maxsize:
                    over.append(i)
                holding.append(i)
                if len(holding) == maxsize:
                    barrier.set()
                await barrier.wait()
                await asyncio.sleep(5)
                used(i)
        hs = [loop.create_task(hold()) for _ in range(maxsize)]
        done, pend = await asyncio.wait(hs, timeout=1000)
        assert not pend, "capacity was lost: %d of %d" % (len(holding), maxsize)
        for h in hs:
            h.result()
        assert len({id(x) for x in holding}) == maxsize
        assert 0 <= len(pool) <= maxsize, "len() is %d" % len(pool)
        if rng.random() < 0.6:
            # instances are destroyed one after another: then none is queued
            await asyncio.sleep(3000 + (slow + 2) * len(made))
            live = [i for i in made if not i.destroyed]
            assert len(live) == len(pool) <= maxsize, \
                "%d instances live, len() is %d" % (len(live), len(pool))
            assert not [i for i in live if i.bad], "a retired instance is never destroyed"
        # close with some instances in use
        users = []
        stay = asyncio.Event()

        async def stayer():
            async with pool.acquire() as i:
                users.append(i)
                await stay.wait()
                used(i)
        ss = [loop.create_task(stayer()) for _ in range(rng.randint(0, maxsize))]
        await asyncio.sleep(50 if ss else 0)
        if not ss and rng.random() < 0.5:
            async def blip():
                async with pool.acquire() as i:
                    used(i)
            await blip()
        closed[0] = True
        await pool.close()
        if rng.random() < 0.5:
            await asyncio.sleep(20)
        for i in made:
            assert i.destroyed == 1, "destroyed %d times (%s)" % (i.destroyed, i.retire)
            assert i.gone, "close returned before an instance was destroyed"
        if ss:
            stay.set()
            await asyncio.gather(*ss)
            # destroyed instances are not handed out after their release

            async def late():
                async with pool.acquire() as i:
                    assert not i.destroyed, "a destroyed instance was handed out"
            t = loop.create_task(late())
            done, _ = await asyncio.wait([t], timeout=100)
            if done:
                t.result()
            t.cancel()
            await asyncio.sleep(1)
    simloop.run(main)
    assert not faults, faults[0]


def fuzz_reuse(rng):
    """a released, healthy instance is used again; the pool creates no more
    than it needs"""
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc.pool")
    made = []
    maxsize = rng.randint(1, 4)

    async def main(loop):
        class P(mod.PoolBase):
            async def _create_instance(self):
                made.append(object())
                return made[-1]

            async def _destroy_instance(self, i):
                assert closing, "destroyed before close"

            async def _check_instance(self, i):
                return True
        closing = []
        pool = P(maxsize=maxsize)
        for _ in range(rng.randint(maxsize, 30)):
            async with pool.acquire() as i:
                assert i in made
                await asyncio.sleep(rng.choice((0, 1)))
        assert len(made) <= maxsize, "%d instances created" % len(made)
        cm = pool.acquire()
        async with cm:
            pass
        try:
            await cm.__aenter__()
        except RuntimeError:
            pass
        else:
            raise AssertionError("context manager reused")
        closing.append(1)
        await pool.close()
    simloop.run(main)


FUZZ = [("pool", fuzz), ("reuse", fuzz_reuse)]
FUZZ_S = 6
