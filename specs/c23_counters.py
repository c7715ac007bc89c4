"""C23: aiomisc.counters."""
import gc
import itertools

from pyvc import core
from pyvc.core import conj, disj
from pyvc.symstr import SymStr
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["metrics are annotations whose value is the class int or float (no string annotations); private names "
          "are left out",
          "updates of one metric by several threads at once are left out",
          "one thread creates, updates and reads statistics at a time",
          "weak references to an object are dropped when it is destroyed"]
CONTRACTS = ["MetaStatistic.__new__ (exhaustive over twelve class hierarchies)",
             "Metric.__set__/__iadd__/__isub__ and Statistic.__setattr__ (one step from any value, for all numbers)",
             "histories of two steps over two objects, eight steps over three objects in the cross-check", "get_statistics (any number of "
             "classes, objects and metrics)"]

BOUNDED = {"hierarchy": "thirteen class hierarchies", "history": "two updates, two objects (eight and three in the cross-check)",
           "kinds": "thirteen classes", "during": "four objects, one change"}

SERIAL = itertools.count()
CACHE = {}


def classes(mod):
    """name -> (class, its metrics)"""
    if id(mod) in CACHE:
        return CACHE[id(mod)][1]
    # the names int and float of the module: instrumented when explored symbolically
    S, I, F = mod.Statistic, getattr(mod, "int", int), getattr(mod, "float", float)

    class Own(S):
        a: I
        b: F

    class Kid(Own):
        c: I

    class Grand(Kid):
        d: F

    class Bare(Own):
        pass

    class BareGrand(Bare):
        pass

    class Other(S):
        e: I
        title: str
        flag: bool = False

    class Both(Own, Other):
        pass

    class BothOwn(Other, Kid):
        f: I

    class Mixin:
        g: str

    class Mixed(Mixin, Own):
        h: F

    class Redeclared(Own):
        a: I

    class NoOwn(Mixin, Own):
        k: str

    class Diamond(Kid, Bare):
        m: I
    r = {"Own": (Own, "ab"), "Kid": (Kid, "abc"), "Grand": (Grand, "abcd"), "Bare": (Bare, "ab"),
         "BareGrand": (BareGrand, "ab"), "Other": (Other, "e"), "Both": (Both, "abe"),
         "BothOwn": (BothOwn, "abcef"), "Mixed": (Mixed, "abh"), "Redeclared": (Redeclared, "ab"),
         "NoOwn": (NoOwn, "ab"), "Diamond": (Diamond, "abcm")}
    CACHE.clear()
    CACHE[id(mod)] = (mod, r)
    return r


class Obj:
    """what an object should report"""

    def __init__(self, cls, metrics, named=True):
        self.cls = cls
        self.name = "s%d" % next(SERIAL)
        self.stat = cls(self.name)
        self.want = {m: 0 for m in metrics}


def dump(mod, objs, *kinds):
    names = {o.name: o for o in objs}
    got = {}
    for r in mod.get_statistics(*kinds):
        if r.name in names:
            got.setdefault(r.name, []).append(r)
    return got


def same(ctx, mod, objs, *kinds):
    got = dump(mod, objs, *kinds)
    for o in objs:
        rs = got.get(o.name, [])
        if kinds and not issubclass(o.cls, kinds):
            ctx.check(not rs, "only the kinds asked for")
            continue
        ctx.check(sorted(r.metric for r in rs) == sorted(o.want), "one value for each metric",
                  (o.cls.__name__, sorted(r.metric for r in rs)))
        for r in rs:
            ctx.check(r.kind is o.cls, "the kind of a result")
            k, n, m, v = r
            ctx.check(k is r.kind and n == r.name and m == r.metric, "a result can be unpacked")
            ctx.check(r.value == o.want[r.metric], "the value of a metric", (o.cls.__name__, r.metric))
            ctx.check(v == o.want[r.metric], "the value of a metric", (o.cls.__name__, r.metric))


def guard(ctx, f, *a):
    try:
        return f(*a)
    except (core.PathEnd, core.Unsupported):
        raise
    except Exception as e:
        ctx.check(False, "no operation fails", repr(e))


def new(ctx, cls, metrics):
    return guard(ctx, Obj, cls, metrics)


def hierarchy(ctx):
    """each class reports the metrics it and its bases declare, for all values"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "Statistic", "get_statistics")
    cs = classes(mod)
    names = sorted(cs)
    cls, metrics = cs[names[ctx.choose(len(names), "class")]]
    o, other = new(ctx, cls, metrics), new(ctx, cls, metrics)
    guard(ctx, same, ctx, mod, [o, other])
    for m in metrics:
        v, d = ctx.int("first", near=5), ctx.real("added")
        if ctx.choose(2, "assign"):
            guard(ctx, setattr, o.stat, m, v)
            o.want[m] = v

        def add():
            x = getattr(o.stat, m)
            x += d
            setattr(o.stat, m, x)
        guard(ctx, add)
        o.want[m] = o.want[m] + d
        ctx.check(getattr(o.stat, m) == o.want[m], "a metric is its value")
    guard(ctx, same, ctx, mod, [o, other])
    ctx.cover("reported")


def update(ctx, o, objs):
    m = ctx.pick(sorted(o.want), "metric")
    op = ctx.pick(("set", "add", "sub", "copy", "extra"), "op")
    s = o.stat
    if op == "set":
        v = ctx.real("value")
        setattr(s, m, v)
        o.want[m] = v
    elif op == "add":
        v = ctx.int("value", near=5)
        x = getattr(s, m)
        x += v
        setattr(s, m, x)
        o.want[m] = o.want[m] + v
    elif op == "sub":
        v = ctx.real("value")
        x = getattr(s, m)
        x -= v
        setattr(s, m, x)
        o.want[m] = o.want[m] - v
    elif op == "copy":
        p = objs[ctx.choose(len(objs), "from")]
        q = ctx.pick(sorted(p.want)[:2], "metric of")
        setattr(s, m, getattr(p.stat, q))
        o.want[m] = p.want[q]
    else:
        s.note = 5
        ctx.check(s.note == 5, "other attributes are kept")


def history(ctx):
    """updates, objects created and destroyed in between"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "Statistic", "get_statistics")
    cs = classes(mod)
    objs = [new(ctx, cs["Own"][0], "ab"), new(ctx, cs["Kid"][0], "abc"), new(ctx, cs["Other"][0], "e")]
    if ctx.sym:
        objs = [objs[0], objs[1 + ctx.choose(2, "second")]]
    for _ in range(2 if ctx.sym else 8):
        guard(ctx, update, ctx, objs[ctx.choose(len(objs), "object")], objs)
    guard(ctx, same, ctx, mod, objs)
    ctx.cover("reported")


def step(ctx):
    """one update of one metric from any state of two objects"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "Statistic", "get_statistics")
    cs = classes(mod)
    objs = [new(ctx, cs["Own"][0], "ab"), new(ctx, cs["Kid"][0], "abc")]
    for o in objs:
        for m in sorted(o.want):
            v = ctx.real("at first")
            guard(ctx, setattr, o.stat, m, v)
            o.want[m] = v
    guard(ctx, update, ctx, objs[ctx.choose(2, "object")], objs)
    guard(ctx, same, ctx, mod, objs)
    ctx.cover("reported")


def kinds(ctx):
    """the kinds asked for, objects which come and go"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "Statistic", "get_statistics")
    cs = classes(mod)
    pick = sorted(cs)
    objs = [new(ctx, *cs[n]) for n in pick]
    for i, o in enumerate(objs):
        guard(ctx, setattr, o.stat, sorted(o.want)[0], i)
        o.want[sorted(o.want)[0]] = i
    how = ctx.pick(("all", "one", "two", "none"), "how")
    if how == "all":
        guard(ctx, same, ctx, mod, objs)
    elif how == "one":
        guard(ctx, same, ctx, mod, objs, cs[ctx.pick(pick, "kind")][0])
    elif how == "two":
        guard(ctx, same, ctx, mod, objs, cs[ctx.pick(pick, "kind")][0], cs[ctx.pick(pick, "kind too")][0])
    else:
        class Unused(mod.Statistic):
            z: getattr(mod, "int", int)
        guard(ctx, same, ctx, mod, objs, Unused)
    # destroyed
    gone = objs.pop(ctx.choose(len(objs), "destroyed"))
    n, gone.stat = gone.name, None
    got = dump(mod, [gone])
    ctx.check(not got, "destroyed objects are not reported")
    ctx.cover("reported")


def during(ctx):
    """objects created, destroyed and updated while the result is read"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "Statistic", "get_statistics")
    cs = classes(mod)
    objs = [new(ctx, *cs[n]) for n in ("Own", "Kid", "Own", "Other")]
    at = ctx.choose(7, "at")
    what = ctx.pick(("create", "destroy", "class"), "what")
    keep = []

    def read():
        got = {}
        i = 0
        names = {o.name for o in objs}
        for r in mod.get_statistics(cs["Own"][0], cs["Other"][0]):
            if r.name not in names:
                continue
            got.setdefault(r.name, []).append(r.metric)
            if i == at:
                if what == "create":
                    keep.append(Obj(*cs["Own"]))
                    keep.append(Obj(*cs["Grand"]))
                elif what == "destroy":
                    objs[2].stat = None
                else:
                    class Late(cs["Own"][0]):
                        y: getattr(mod, "int", int)
                    keep.append(Late())
            i += 1
            r = None
        return got
    got = guard(ctx, read)
    for i, o in enumerate(objs):
        g = sorted(got.get(o.name, []))
        if i == 2 and what == "destroy":
            ctx.check(len(g) == len(set(g)) and set(g) <= set(o.want), "one value for each metric")
        else:
            ctx.check(g == sorted(o.want), "one value for each metric", g)
    ctx.cover("reported")


def report(ctx):
    """get_statistics over any number of classes, objects and metrics: the
    value of any one metric of any one object is given once"""
    mod = load("aiomisc.counters", transform=ctx.sym)
    need(mod, "get_statistics", "CLASS_STORE", "StatisticResult")
    if not ctx.sym:
        raise core.Discard

    class G:
        count = 0
    value = ctx.real("value")
    few = getattr(ctx, "no_cut", False)
    kinds = [object() for _ in range(ctx.choose(2 if few else 3, "kinds"))]
    rel = {}

    def derived(k, x):
        if (k, x) not in rel:
            rel[k, x] = bool(ctx.choose(2, "derived"))
        return rel[k, x]

    def issubclass(k, xs):
        return any(derived(k, x) for x in (xs if isinstance(xs, tuple) else (xs,)))
    mod.issubclass = issubclass

    def asked(k):
        return not kinds or issubclass(k, tuple(kinds))

    def seq(name, mine, make, inv):
        """any number of elements, one of them is mine"""
        n = ctx.int(name, 0)
        j = None
        if mine is not None:
            j = ctx.int("which of the " + name, 0)
            ctx.assume(j < n)
        if few:
            ctx.assume(n <= 2)

        def havoc(c):
            G.count = c.int("given", 0)
        return SymSeq(n, (lambda i: mine) if mine is not None else (lambda i: make()), name, j, make,
                      Cut(havoc, lambda c: inv(c, j), obj=lambda c, n, v: v))

    def once(mine):
        def inv(c, j):
            if not mine:
                return [(G.count == 0, "one value for each metric")]
            if j is None:
                return [(G.count == G.base, "one value for each metric")]
            return [(conj(disj(c.iter_index <= j, G.count == 1), disj(c.iter_index > j, G.count == 0)),
                     "one value for each metric")]
        return inv

    class Counter(core.Abstract):
        def __init__(self, mine):
            self.mine = mine

        def items(self):
            G.base = G.count
            return seq("metrics", ("m", value) if self.mine else None, lambda: ("other", ctx.real("other value")),
                       once(True))

    class Inst(core.Abstract):
        def __init__(self, mine):
            self.mine, self._counter = mine, Counter(mine)
            self.name = SymStr.var(ctx, "name") if mine and named else None

    class Cls(core.Abstract):
        def __init__(self, inst):
            self.inst = inst

        @property
        def __instances__(self):
            ctx.check(asked(self), "the kinds requested")
            G.base = G.count
            return seq("objects", self.inst, lambda: Inst(False), once(True))
    named = ctx.choose(2, "named")
    inst = Inst(True)
    cls = Cls(inst)
    want = asked(cls)
    mod.CLASS_STORE = seq("classes", cls, lambda: Cls(None), once(want))
    for r in mod.get_statistics(*kinds):
        ctx.check(asked(r.kind), "the kinds requested")
        if r.kind is cls and r.name is inst.name and r.metric == "m":
            ctx.check(r.value == value, "the true value")
            G.count = G.count + 1
        else:
            ctx.check(r.metric == "other", "one value for each metric")
    ctx.check(G.count == (1 if want else 0), "one value for each metric")
    ctx.cover("reported")


HARNESSES = [("report", report), ("hierarchy", hierarchy), ("step", step), ("history", history), ("kinds", kinds), ("during", during)]


def fuzz(rng):
    """random class hierarchies and histories"""
    import aiomisc.counters as mod
    S = mod.Statistic
    pool = [(S, set())]
    letters = "abcdefghij"
    for i in range(rng.randrange(1, 6)):
        for _ in range(5):
            bases = rng.sample(pool, min(len(pool), rng.choice((1, 1, 2))))
            ann = {c: rng.choice((int, float)) for c in rng.sample(letters, rng.randrange(0, 3))}
            junk = {c.upper(): rng.choice((str, bool, dict)) for c in rng.sample(letters, rng.randrange(0, 2))}
            dct = {"__module__": __name__}
            if ann or junk:
                dct["__annotations__"] = {**ann, **junk}
            # some with values of the class
            dct.update((c, 7) for c in ann if rng.random() < 0.2)
            try:
                k = type(S)("F%d" % next(SERIAL), tuple(b for b, _ in bases), dct)
            except TypeError as e:
                assert "MRO" in str(e) or "consistent" in str(e), e
                continue
            pool.append((k, set(ann).union(*(m for _, m in bases))))
            break
    objs = []
    for _ in range(rng.randrange(1, 15)):
        c = [p for p in pool if p[1]]
        if not c:
            return
        r = rng.random()
        if r < 0.3 or not objs:
            objs.append(Obj(*rng.choice(c)))
        elif r < 0.35:
            objs.pop(rng.randrange(len(objs)))
        else:
            o = rng.choice(objs)
            m = rng.choice(sorted(o.want))
            v = rng.choice((0, 1, -3, 10 ** 20, 0.5, -2.25))
            x = getattr(o.stat, m)
            if r < 0.6:
                x += v
                setattr(o.stat, m, x)
                o.want[m] += v
            elif r < 0.7:
                x -= v
                setattr(o.stat, m, x)
                o.want[m] -= v
            elif r < 0.9:
                setattr(o.stat, m, v)
                o.want[m] = v
            else:
                p = rng.choice(objs)
                q = rng.choice(sorted(p.want))
                setattr(o.stat, m, getattr(p.stat, q))
                o.want[m] = p.want[q]
    kinds = [k for k, _ in rng.sample(pool, rng.randrange(0, min(3, len(pool))))]
    got = dump(mod, objs, *kinds)
    for o in objs:
        rs = {r.metric: r.value for r in got.get(o.name, [])}
        assert len(rs) == len(got.get(o.name, [])), "a metric is reported twice"
        assert all(r.kind is o.cls for r in got.get(o.name, [])), "the kind of a result"
        if kinds and not issubclass(o.cls, tuple(kinds)):
            assert not rs, "only the kinds asked for"
        else:
            assert rs == o.want, "wrong values: %r, not %r" % (rs, o.want)


FUZZ = [("histories", fuzz)]
FUZZ_S = 3
