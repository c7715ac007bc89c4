"""C14: aiomisc_worker.protocol."""
import asyncio
import io
import pickle
import struct

from pyvc import core
from pyvc.aio import Exc, NS, Ret, Suspend, drive
from pyvc.core import conj, disj, implies
from pyvc.load import Cut, load, need

ASSUME = ["pickle.loads(pickle.dumps(x)) equals x, and no proper prefix of a pickle can be loaded",
          "socket.recv(n) returns 1..n bytes, or none at the end of the stream; sendall writes everything "
          "or raises; send accepts any non-empty part", "file objects are buffered: read(n) returns n bytes "
          "unless the file ends, write(data) takes everything",
          "StreamReader.readexactly returns exactly n bytes or raises IncompleteReadError"]
CONTRACTS = ["SocketIOProtocol._read (any size, any fragmentation)", "SocketIOProtocol._write",
             "FileIOProtocol._read/_write", "Protocol._pack/send/receive", "AsyncProtocol._pack/send/receive"]

HEADER = 4


class Span:
    """bytes [lo, hi) of the stream"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __vc_len__(self):
        return self.hi - self.lo

    def __len__(self):
        n = self.hi - self.lo
        if isinstance(n, int):
            return n
        return 1 if n > 0 else 0

    def __bool__(self):
        return bool(self.hi > self.lo)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return self
        if not isinstance(o, Span):
            raise core.Unsupported("bytes of another kind")
        if not self:
            return o
        core.CURRENT.check(implies(o.hi > o.lo, self.hi == o.lo), "the bytes are kept in order, without a gap")
        return Span(self.lo, core.smax(self.hi, o.hi))

    __iadd__ = __add__

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return self
        raise core.Unsupported("bytes of another kind")

    def __vc_eq__(self, lo, hi):
        return disj(conj(self.lo == lo, self.hi == hi),
                    conj(self.hi == self.lo, lo == hi))


class Buf:
    """io.BytesIO by contract"""

    def __init__(self, *a):
        if a:
            raise core.Unsupported("BytesIO(initial)")
        self.data = None
        self.size = 0
        self.start = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def tell(self):
        return self.size

    def write(self, s):
        ctx = core.CURRENT
        if self.start is None:
            self.start = s.lo
        ctx.check(s.lo == self.start + self.size, "the bytes are kept in order, without a gap")
        self.size = self.size + (s.hi - s.lo)
        return s.hi - s.lo

    def getvalue(self):
        if self.start is None:
            return Span(0, 0)
        return Span(self.start, self.start + self.size)

    def close(self):
        pass


class Falsy(Exception):
    def __bool__(self):
        return False


class World:
    pass


def stream(ctx, mod, cls):
    """a stream with a frame at P and its end at an arbitrary place"""
    w = World()
    w.P = ctx.int("position", 0, near=50)
    w.L = ctx.int("payload size", 0, near=300)
    w.end = ctx.int("end of stream", 0, near=300)
    ctx.assume(w.end >= w.P)
    w.pos = w.P
    w.payload = Falsy("payload") if ctx.choose(2, "falsy payload") else None
    w.loaded = 0

    class Struct:
        size = HEADER

        def unpack(self, s):
            if not isinstance(s, Span):
                raise core.Unsupported("header of another kind")
            short = s.hi - s.lo != HEADER
            if short:
                raise struct.error("unpack requires a buffer of 4 bytes")
            ctx.check(s.lo == w.P, "the header is read from the start of the frame")
            return (w.L,)

        def unpack_from(self, s, offset=0):
            raise core.Unsupported("unpack_from")

    def loads(s):
        if not isinstance(s, Span):
            raise core.Unsupported("payload of another kind")
        a, b = w.P + HEADER, w.P + HEADER + w.L
        if s.hi - s.lo < w.L:
            raise EOFError("Ran out of input")
        ctx.check(conj(s.hi - s.lo == w.L, disj(w.L == 0, conj(s.lo == a, s.hi == b))),
                  "exactly the payload of the frame is decoded")
        w.loaded += 1
        return w.payload
    mod.pickle = NS(pickle, loads=loads)
    mod.io = NS(io, BytesIO=Buf)
    cls.PACKET_HEADER = Struct()
    return w


def take(ctx, w, k):
    s = Span(w.pos, w.pos + k)
    w.pos = w.pos + k
    return s


def received(ctx, w, status, v):
    whole = w.end >= w.P + HEADER + w.L
    if status == "ret":
        ctx.check(whole, "nothing is delivered from an incomplete frame")
        ctx.check(v is w.payload and w.loaded == 1, "the payload of the frame is delivered")
        ctx.check(w.pos == w.P + HEADER + w.L, "exactly the frame is consumed")
        ctx.cover("frame")
    else:
        ctx.check(core.negate(whole), "a complete frame is delivered", repr(v))
        ctx.cover("incomplete")


def sock_receive(ctx):
    mod = load("aiomisc_worker.protocol", transform=ctx.sym)
    need(mod, "SocketIOProtocol", "pickle", "io")
    w = stream(ctx, mod, mod.SocketIOProtocol)

    class Sock:
        def recv(self, n, *flags):
            ctx.check(n > 0, "a positive number of bytes is asked for")
            # a blocking read of bytes which belong to the next frame would
            # wait for it, or take them away
            ctx.check(w.pos + n <= w.P + HEADER + w.L, "no byte behind the frame is asked for")
            if w.end <= w.pos:
                return Span(w.pos, w.pos)
            k = ctx.int("received", 1, near=20)
            ctx.assume(conj(k <= n, w.pos + k <= w.end))
            ctx.feasible()
            return take(ctx, w, k)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise core.Unsupported("socket." + name)
    p = mod.SocketIOProtocol(Sock())

    class F:
        bufs = []

    class B(Buf):
        def __init__(self, *a):
            Buf.__init__(self, *a)
            F.bufs.append(self)
    F.bufs = []
    mod.io.BytesIO = B

    def havoc(c):
        F.p0 = w.pos
        d = c.int("bytes so far", 0)
        w.pos = w.pos + d
        for b in F.bufs[-1:]:
            b.start = F.p0 if b.start is None else b.start
            b.size = b.size + d

    def inv(c):
        b = F.bufs[-1] if F.bufs else None
        out = [(w.pos <= core.smax(w.end, w.P), "the stream is read up to its end")]
        if b is not None:
            base = w.pos - b.size
            out.append((disj(base == w.P, base == w.P + HEADER), "the buffer holds what was read"))
            if b.start is not None:
                out.append((conj(b.start == base, b.size >= 0), "the buffer is in order"))
            # one buffer at a time
            phase2 = len(F.bufs) > 1
            out.append((base == (w.P + HEADER if phase2 else w.P), "header first"))
            out.append((b.size <= (w.L if phase2 else HEADER), "not more than asked for"))
        return out

    def obj(c, n, v):
        if isinstance(v, Span):
            a = c.int(n + ".lo", 0)
            b = c.int(n + ".hi", 0)
            c.assume(a <= b)
            return Span(a, b)
        return v
    if ctx.sym:
        ctx.loops = {("while",): Cut(havoc, inv, obj=obj)}
    try:
        r = ("ret", p.receive())
    except Exception as e:
        r = ("exc", e)
    received(ctx, w, *r)
    if r[0] == "exc":
        ctx.check(isinstance(r[1], (ConnectionError, EOFError, struct.error)), "the end of the stream is reported",
                  repr(r[1]))


def file_receive(ctx):
    mod = load("aiomisc_worker.protocol", transform=ctx.sym)
    need(mod, "FileIOProtocol", "pickle")
    w = stream(ctx, mod, mod.FileIOProtocol)

    class File:
        def read(self, n=-1):
            if n < 0:
                raise core.Unsupported("read all")
            ctx.check(w.pos + n <= w.P + HEADER + w.L, "no byte behind the frame is asked for")
            return take(ctx, w, core.smin(n, w.end - w.pos))

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise core.Unsupported("file." + name)
    p = mod.FileIOProtocol(File())
    try:
        r = ("ret", p.receive())
    except Exception as e:
        r = ("exc", e)
    received(ctx, w, *r)


def async_receive(ctx):
    mod = load("aiomisc_worker.protocol", transform=ctx.sym)
    need(mod, "AsyncProtocol", "pickle")
    w = stream(ctx, mod, mod.AsyncProtocol)
    st = {"broken": None}

    class Reader:
        async def readexactly(self, n):
            return await Suspend("readexactly", n)

        async def read(self, n=-1):
            return await Suspend("read", n)

        def at_eof(self):
            return False
    p = mod.AsyncProtocol(Reader(), None)

    def handler(q):
        n = q.args[0]
        how = ctx.pick(("data", "cancelled", "reset"), "await ends")
        if how != "data":
            st["broken"] = Exc(asyncio.CancelledError() if how == "cancelled" else ConnectionResetError())
            return st["broken"]
        ctx.check(n >= 0, "a number of bytes is asked for")
        ctx.check(w.pos + n <= w.P + HEADER + w.L, "no byte behind the frame is asked for")
        if q.kind == "readexactly":
            if w.pos + n > w.end:
                return Exc(asyncio.IncompleteReadError(b"", None))
            return Ret(take(ctx, w, n))
        k = ctx.int("received", 0, near=20)
        ctx.assume(conj(k <= n, w.pos + k <= w.end, disj(k > 0, n == 0, w.pos == w.end)))
        ctx.feasible()
        return Ret(take(ctx, w, k))
    r = drive(p.receive(), handler)
    if st["broken"]:
        ctx.check(r[0] == "exc" and r[1] is st["broken"].exc, "a broken connection is reported")
        return
    received(ctx, w, *r)


# ------------------------------------------------------------------- send

class Out:
    """bytes to be written: pieces with sizes"""

    def __init__(self, pieces):
        self.pieces = pieces

    def __vc_len__(self):
        n = 0
        for k, s in self.pieces:
            n = n + s
        return n

    def __len__(self):
        n = self.__vc_len__()
        if not isinstance(n, int):
            return 1
        return n

    def __add__(self, o):
        return Out(self.pieces + o.pieces)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.stop is not None or s.step is not None:
            raise core.Unsupported("slice of a packet")
        raise core.Unsupported("part of a packet")


def send(ctx):
    mod = load("aiomisc_worker.protocol", transform=ctx.sym)
    kind = ctx.pick(("socket", "file", "async"), "protocol")
    cls = {"socket": "SocketIOProtocol", "file": "FileIOProtocol", "async": "AsyncProtocol"}[kind]
    need(mod, cls, "pickle")
    cls = getattr(mod, cls)
    N = ctx.int("payload size", 0, near=300)
    payload = Falsy("p") if ctx.choose(2, "falsy") else object()
    G = {"out": [], "fail": ctx.pick(("no", "pickle", "io"), "failure"), "hidden": None, "drained": 0}

    class Struct:
        size = HEADER

        def pack(self, n):
            if not (0 <= n < 2 ** 32):
                raise struct.error("argument out of range")
            G["packed"] = n
            return Out([("header", HEADER)])

    def dumps(x, *a, **k):
        ctx.check(x is payload, "the payload is packed")
        if G["fail"] == "pickle":
            raise Falsy("cannot pickle")
        return Out([("payload", N)])
    mod.pickle = NS(pickle, dumps=dumps)
    cls.PACKET_HEADER = Struct()

    def write(x):
        if not isinstance(x, Out):
            raise core.Unsupported("another kind of bytes")
        G["out"] += x.pieces

    class Sock:
        def sendall(self, x):
            if G["fail"] == "io":
                raise BrokenPipeError()
            write(x)

        def send(self, x):
            if G["fail"] == "io":
                raise BrokenPipeError()
            k = ctx.int("sent", 1, near=10)
            n = x.__vc_len__()
            ctx.assume(k <= n)
            if k == n:
                write(x)
            else:
                G["out"].append(("part", k))
            return k

    class File:
        def write(self, x):
            if G["fail"] == "io":
                raise BrokenPipeError()
            write(x)
            return x.__vc_len__()

        def flush(self):
            pass

    class Writer:
        def write(self, x):
            write(x)

        def writelines(self, xs):
            for x in xs:
                write(x)

        async def drain(self):
            await Suspend("drain")
    if kind == "socket":
        p = cls(Sock())
    elif kind == "file":
        p = cls(File())
    else:
        p = cls(None, Writer())
    if kind == "async":
        def handler(q):
            # other packets are written by others whenever this one waits
            ctx.check([k for k, s in G["out"]] == ["header", "payload"], "a packet is written at once")
            if G["fail"] == "io":
                return Exc(ConnectionResetError())
            G["drained"] += 1
            return Ret(None)
        st, v = drive(p.send(payload), handler)
    else:
        try:
            st, v = "ret", p.send(payload)
        except Exception as e:
            st, v = "exc", e
    if st == "exc":
        ctx.check(disj(G["fail"] != "no", N >= 2 ** 32), "a packet is written", repr(v))
        if kind != "async" or G["fail"] != "io":
            ctx.check(not G["out"], "nothing is written of a packet that cannot be")
        ctx.cover("refused")
        return
    ctx.check(G["fail"] == "no", "a failure is reported")
    ctx.check([k for k, s in G["out"]] == ["header", "payload"], "the whole frame is written once")
    ctx.check(G["packed"] == N, "the header holds the size of the payload")
    ctx.cover("sent")


# ------------------------------------------------------------- executions

class Point:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o) is Point and o.x == self.x

    def __repr__(self):
        return "Point(%r)" % (self.x,)


def fuzz(rng):
    import importlib
    from pyvc import simloop
    mod = importlib.import_module("aiomisc_worker.protocol")
    W = importlib.import_module("aiomisc_worker")

    def value(d=0):
        k = rng.randrange(9 if d < 2 else 6)
        return [lambda: None, lambda: rng.randint(-5, 2 ** 70), lambda: b"x" * rng.choice((0, 1, 255, 4000, 70000)),
                lambda: "", lambda: rng.choice(list(W.PacketTypes)), lambda: rng.random(),
                lambda: tuple(value(d + 1) for _ in range(rng.randint(0, 3))),
                lambda: {str(i): value(d + 1) for i in range(rng.randint(0, 3))},
                lambda: Point(value(d + 1))][k]()
    packets = [value() for _ in range(rng.randint(1, 5))]
    log, wire = [], bytearray()

    class Out:
        """a transport that takes only a part"""

        def send(self, data, *a):
            n = max(1, min(len(data), rng.choice((1, 3, 100, 5000, 10 ** 6))))
            wire.extend(bytes(data[:n]))
            return n

        def sendall(self, data, *a):
            wire.extend(bytes(data))

        def sendmsg(self, bufs, *a):
            return self.send(b"".join(bufs))

    class AW:
        def write(self, data):
            wire.extend(bytes(data))

        def writelines(self, xs):
            for x in xs:
                self.write(x)

        async def drain(self):
            await asyncio.sleep(rng.choice((0, 0, .1)))

        def can_write_eof(self):
            return True

    class Bad:
        def __reduce__(self):
            raise ValueError("cannot pickle")
    kind = rng.choice(("socket", "file", "async"))
    sent = []
    if kind == "async":
        async def go(loop):
            p = mod.AsyncProtocol(None, AW())
            if rng.random() < .3:
                # several senders at a time: frames do not mix
                await asyncio.gather(*[p.send(x) for x in packets])
            else:
                for x in packets:
                    if rng.random() < .2:
                        try:
                            await p.send((1, Bad()))
                        except ValueError:
                            pass
                    await p.send(x)
        simloop.run(go)
    else:
        f = io.BytesIO()
        p = mod.SocketIOProtocol(Out()) if kind == "socket" else mod.FileIOProtocol(f)
        for x in packets:
            if rng.random() < .2:
                try:
                    p.send((1, Bad()))
                except ValueError:
                    pass
            p.send(x)
        if kind == "file":
            wire.extend(f.getvalue())
    data = bytes(wire)
    cut = len(data) if rng.random() < .6 else rng.randrange(len(data))
    # frame boundaries, from the format
    ends, i = [], 0
    while i + 4 <= len(data):
        i += 4 + struct.unpack("!L", data[i:i + 4])[0]
        ends.append(i)
    assert ends and ends[-1] == len(data) and len(ends) == len(packets), "frames on the wire: %s" % (ends[-3:],)
    whole = sum(1 for e in ends if e <= cut)
    left = [data[:cut]]

    def some(n):
        n = min(n, rng.choice((1, 1, 2, 7, 100, 3000, 10 ** 6)))
        r, left[0] = left[0][:n], left[0][n:]
        return r

    class In:
        def recv(self, n, *a):
            return some(n)

        def recv_into(self, b, n=0, *a):
            r = some(n or len(b))
            b[:len(r)] = r
            return len(r)

    class Raw(io.RawIOBase):
        def readable(self):
            return True

        def readinto(self, b):
            r = some(len(b))
            b[:len(r)] = r
            return len(r)
    got = []
    how = rng.choice(("socket", "file", "async"))
    if how == "async":
        async def go(loop):
            r = asyncio.StreamReader()

            async def feed():
                while left[0]:
                    r.feed_data(some(10 ** 9))
                    for _ in range(rng.choice((0, 0, 1, 5))):
                        await asyncio.sleep(0)
                r.feed_eof()
            t = loop.create_task(feed())
            p = mod.AsyncProtocol(r, None)
            for _ in range(len(packets) + 1):
                try:
                    got.append(await p.receive())
                except (asyncio.IncompleteReadError, ConnectionError):
                    break
            await t
        simloop.run(go)
    else:
        p = mod.SocketIOProtocol(In()) if how == "socket" else \
            mod.FileIOProtocol(io.BufferedReader(Raw(), rng.choice((1, 16, 8192))))
        for _ in range(len(packets) + 1):
            try:
                got.append(p.receive())
            except Exception:
                break
    assert len(got) == whole, "%d packets delivered of %d (%s -> %s)" % (len(got), whole, kind, how)
    for a, b in zip(packets, got):
        assert type(a) is type(b) and a == b, "packet %r arrived as %r" % (a, b)


HARNESSES = [("socket receive", sock_receive), ("file receive", file_receive),
             ("async receive", async_receive), ("send", send)]
FUZZ = [("frames", fuzz)]
FUZZ_S = 3
