"""C11: utils.chunk_list partitions any iterable (unbounded proof)."""
import itertools

from pyvc import core
from pyvc.aio import NS
from pyvc.core import conj, disj, implies
from pyvc.load import Cut, load, need

ASSUME = ["itertools.islice(it, n) takes the next min(n, remaining) items of it, "
          "lazily, when it is listed"]
CONTRACTS = ["utils.chunk_list (iterables of any length, any chunk size)"]


class Chunk:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __vc_len__(self):
        return self.b - self.a

    def __bool__(self):
        return bool(self.b > self.a)

    def __len__(self):
        return int(self.b - self.a)

    def __eq__(self, other):
        if isinstance(other, (list, Chunk)) and not len(other):
            return bool(self.b == self.a)
        if not isinstance(other, list):
            return self is other
        raise core.Unsupported("a chunk is compared with %r" % (other,))

    __hash__ = None


def chunks(ctx):
    mod = load("aiomisc.utils", transform=ctx.sym)
    need(mod, "chunk_list")
    if not ctx.sym:
        return concrete(ctx, mod)
    n = ctx.int("length", 0)
    size = ctx.int("size", 1)

    class G:
        consumed = 0
        delivered = 0
        item = None
        ahead = None    # is a chunk taken before the loop is entered

    class It:
        def __iter__(self):
            return self

        def __next__(self):
            if G.consumed < n:
                raise core.Unsupported("item by item")
            raise StopIteration

    class Slice:
        def __init__(self, k):
            self.k = k

        def __vc_list__(self):
            a = G.consumed
            G.consumed = core.smin(a + self.k, n)
            G.item = Chunk(a, G.consumed)
            return G.item

    def islice(it, *a):
        if len(a) != 1 or not isinstance(it, It):
            raise core.Unsupported("islice%r" % (a,))
        return Slice(a[0])
    mod.itertools = NS(itertools, islice=islice)

    def havoc(c):
        G.delivered = c.int("delivered", 0)
        G.consumed = c.int("consumed", 0)
        G.item = Chunk(c.int("item_a", 0), c.int("item_b", 0))

    def inv(c):
        i = G.item
        if G.ahead is None:
            G.ahead = i is not None
        if not G.ahead:
            return [(conj(G.consumed == G.delivered, G.delivered <= n,
                          G.delivered >= 0), "everything taken is delivered")]
        return [
            (conj(G.delivered == i.a, G.consumed == i.b),
             "everything but the chunk at hand is delivered"),
            (conj(i.a >= 0, i.a <= i.b, i.b == core.smin(i.a + size, n)),
             "the chunk at hand is the next size items"),
        ]
    ctx.loops = {("while",): Cut(havoc, inv, ghosts=lambda c: {"item": G.item},
                                 obj=lambda c, nme, v: G.item if isinstance(v, Chunk) else v)}
    gen = mod.chunk_list(It(), size)
    if not hasattr(gen, "__next__"):
        raise core.Unsupported("not a generator")
    ctx.check(G.consumed == 0, "nothing is taken before the first chunk is asked for")
    steps = 0
    while True:
        steps += 1
        if steps > 6:
            raise core.Unsupported("chunk_list does not go through its loop")
        try:
            c = next(gen)
        except StopIteration:
            ctx.cover("end")
            ctx.check(G.delivered == n, "all items are delivered")
            return
        if not isinstance(c, Chunk):
            raise core.Unsupported("chunk of another kind")
        ctx.cover("chunk")
        ctx.check(c.b > c.a, "no chunk is empty")
        ctx.check(c.a == G.delivered, "chunks follow each other without gap or overlap")
        ctx.check(c.b - c.a <= size, "a chunk has at most size items")
        ctx.check(implies(c.b - c.a < size, c.b == n), "only the last chunk is shorter")
        ctx.check(G.consumed == c.b, "nothing is taken beyond the chunk handed out")
        G.delivered = c.b


def concrete(ctx, mod):
    n = ctx.choose(40, "length")
    size = ctx.choose(12, "size") + 1
    taken = []

    def source():
        for i in range(n):
            taken.append(i)
            yield i
    out = []
    for c in mod.chunk_list(source(), size):
        ctx.check(len(c) > 0, "no chunk is empty")
        ctx.check(len(c) <= size, "a chunk has at most size items")
        out.extend(c)
        ctx.check(len(c) == size or len(out) == n, "only the last chunk is shorter")
        ctx.check(len(taken) == len(out), "nothing is taken beyond the chunk handed out")
    ctx.check(out == list(range(n)), "all items are delivered")


def fuzz(rng):
    import importlib
    mod = importlib.import_module("aiomisc.utils")
    n = rng.choice((0, 1, rng.randint(0, 20), rng.randint(0, 300)))
    size = rng.choice((1, 2, rng.randint(1, 20), n or 1, n + 1, max(n - 1, 1), 1000))
    kind = rng.choice(("list", "gen", "tuple", "iter", "str", "set", "none items"))
    data = list(range(n))
    taken = []
    if kind == "none items":
        data = [rng.choice((None, 0, "", [], False)) for _ in range(n)]
    elif kind == "str":
        data = [chr(65 + i % 26) for i in range(n)]

    def gen():
        for x in data:
            taken.append(x)
            yield x
    src = {"list": lambda: data, "gen": gen, "tuple": lambda: tuple(data),
           "iter": lambda: iter(data), "str": lambda: "".join(data),
           "set": lambda: dict.fromkeys(data).keys(), "none items": gen}[kind]()
    it = iter(mod.chunk_list(src, size))
    stop_at = rng.choice((None, None, rng.randint(0, 5)))
    out, k = [], 0
    assert not taken, "items are taken early"
    while stop_at is None or k < stop_at:
        try:
            c = next(it)
        except StopIteration:
            assert out == data, "items lost: %d of %d" % (len(out), n)
            break
        k += 1
        assert c, "empty chunk"
        c = list(c)
        assert c == data[len(out):len(out) + size], "chunk %d is %r" % (k, c[:5])
        out += c
        if kind in ("gen", "none items"):
            assert len(taken) == len(out), "%d items taken for %d" % (len(taken), len(out))


HARNESSES = [("chunk_list", chunks)]
FUZZ = [("chunks", fuzz)]
FUZZ_S = 2
