"""C13: aiomisc.service.dns.service."""
import asyncio
import struct

from pyvc import core
from pyvc.aio import Exc, NS, Ret, Sink, Suspend, drive
from pyvc.core import conj, disj, implies, smax
from pyvc.load import Cut, SymSeq, load, need

ASSUME = ["dnslib parses and packs messages correctly; a packed message is the header, the "
          "question, the answers and the additional records, and at most 300 bytes without answers",
          "StreamReader.readexactly(n) gives exactly n bytes or IncompleteReadError, read(n) between "
          "0 and n bytes", "DNSStore.query is used through its contract (C12)"]
CONTRACTS = ["DNSServer.handle_request (any number of records, any sizes)",
             "DNSServer.get_edns_max_size", "UDPDNSServer.handle_datagram",
             "TCPDNSServer.handle_client (any number of requests, any fragmentation)",
             "UDPServer.UDPSimpleProtocol.datagram_received"]


class Lab:
    def __str__(self):
        return "www.test."

    def __len__(self):
        return 0


class Msg:
    """a packed message of symbolic size"""

    def __init__(self, ctx, src, size, **kw):
        self.ctx, self.src, self.size, self.cut = ctx, src, size, None
        self.__dict__.update(kw)

    def __vc_len__(self):
        return self.size if self.cut is None else core.smin(self.size, self.cut)

    def __len__(self):
        return self.__vc_len__()

    def __bool__(self):
        return True

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start not in (None, 0) or s.step is not None:
            raise core.Unsupported("slice of a message")
        m = Msg(self.ctx, self.src, self.size)
        m.__dict__.update(self.__dict__)
        m.cut = s.stop if self.cut is None or s.stop is None else core.smin(s.stop, self.cut)
        return m


class Falsy(Exception):
    def __bool__(self):
        return False


class World:
    pass


def world(ctx, mod, must_fail=True):
    """dnslib and the store by contract"""
    w = World()
    w.n = ctx.int("records", 0, near=20)
    w.full = ctx.int("full size", 12, near=3000)
    w.base = ctx.int("base size", 12, near=250)
    ctx.assume(conj(w.base <= 300, w.full >= w.base, w.full <= 65535))
    w.failed = False
    w.fail = ctx.pick(("no", "query", "rr", "pack", "type"), "failure")
    w.edns = ctx.pick(("none", "opt", "other", "other opt"), "additional")
    w.limit = ctx.int("payload size", 0, near=4096)
    ctx.assume(w.limit <= 65535)
    w.qtype = 62000 if w.fail == "type" else 1
    w.replies = []

    class RR:
        def __init__(self, i, qt):
            self.i, self.qt = i, qt

    class Rec:
        def __init__(self, i):
            self.i = i

        def rr(self, qt):
            if w.fail == "rr" and (not ctx.sym or ctx.choose(2, "this record")):
                w.failed = True
                raise Falsy("rr")
            return RR(self.i, qt)

    class RRs:
        """the answer section: how many of the stored records, in order"""

        def __init__(self, owner):
            self.owner, self.count = owner, 0
            self.vc_num = 0

        def append(self, rr):
            ctx.check(isinstance(rr, RR), "an answer is the RR of a stored record")
            ctx.check(rr.qt == w.qtype, "an answer has the type asked for")
            ctx.check(rr.i == self.count, "each stored record is in the answer once")
            self.count = self.count + 1

        def extend(self, rrs):
            if isinstance(rrs, SymSeq):
                j = ctx.int("j", 0)
                ctx.assume(j < rrs.n)
                if ctx.choose(2, "any record") == 0:
                    rr = rrs.at(j)
                    ctx.check(rr.qt == w.qtype and self.count == 0, "an answer has the type asked for")
                    ctx.check(rr.i == j, "each stored record is in the answer once")
                self.count = self.count + rrs.n
            else:
                for r in rrs:
                    self.append(r)

        def clear(self):
            self.count = 0

    class Adder:
        def __init__(self, reply):
            self.reply = reply

        def __call__(self, *rrs):
            for r in rrs:
                self.reply.rr.append(r)

        def __vc_symcall__(self, seq):
            self.reply.rr.extend(seq)

    class Header:
        tc = 0
        rcode = 0

        def set_rcode(self, r):
            self.rcode = r

        def set_tc(self, v):
            self.tc = v

    class Reply:
        def __init__(self):
            self.rr = RRs(self)
            self.ar = []
            self.header = Header()
            self.q = w.question
            w.replies.append(self)
            self.add_answer = Adder(self)

        def add_ar(self, *r):
            self.ar.extend(r)

        def pack(self):
            if w.fail == "pack" and len(w.replies) == 1:
                w.failed = True
                raise Falsy("pack")
            cnt = 0 if isinstance(self.rr, list) and not self.rr else self.rr.count
            if not isinstance(cnt, int) or cnt:
                if cnt == 0:
                    size = w.base
                else:
                    ctx.check(cnt == w.n, "all the stored records or none")
                    size = w.full
            else:
                size = w.base
            return Msg(ctx, self, size, count=cnt, tc=self.header.tc,
                       rcode=self.header.rcode, ar=list(self.ar))

    class AR:
        def __init__(self, rtype):
            self.rtype = rtype
            self.edns_len = w.limit if rtype == 41 else "not OPT"

    class Question:
        qtype = w.qtype

        def get_qname(self):
            return Lab()

        qname = Lab()
    w.question = Question()

    class Record:
        ar = {"none": [], "opt": [AR(41)], "other": [AR(1)], "other opt": [AR(1), AR(41)]}[w.edns]
        q = w.question

        def get_q(self):
            return w.question

        def reply(self):
            return Reply()
    w.record = Record()
    w.data = object()
    w.parsed = []

    class DNSRecord:
        @classmethod
        def parse(cls, data):
            w.parsed.append(data)
            return w.record

    def EDNS0(**kw):
        return ("EDNS0", kw)
    import dnslib
    mod.dnslib = NS(dnslib, DNSRecord=DNSRecord, EDNS0=EDNS0, QTYPE=dnslib.QTYPE,
                    RCODE=dnslib.RCODE)
    mod.log = Sink()
    w.rcode = dnslib.RCODE

    class Store:
        def query(self, name, typ):
            ctx.check(name == "www.test." and typ == 1, "the store is asked for the question")
            if w.fail == "query":
                w.failed = True
                raise Falsy("store")
            if not ctx.sym:
                n = w.n % 5
                w.n = n
                return tuple(Rec(i) for i in range(n))
            return SymSeq(w.n, Rec, "records")
    w.store = Store()

    def havoc(c):
        w.replies[0].rr.count = c.int("answers so far", 0)

    ctx.loops = {("for",): Cut(
        havoc, lambda c: [(w.replies[0].rr.count == (c.iter_index if hasattr(c, "iter_index") else 0),
                           "one answer per record")] if isinstance(w.replies[0].rr, RRs) else [],
        obj=lambda c, n, v: v)}
    return w


def judge(ctx, w, body, udp):
    ctx.check(isinstance(body, Msg), "the reply is a packed message")
    ctx.check(body.src in w.replies, "the reply answers the query (same id and question)")
    ctx.check(body.src.q is w.question, "the question is kept")
    if body.cut is not None:
        ctx.check(body.cut >= body.size, "a message is never cut in the middle")
    if w.failed or w.fail == "type":
        ctx.check(body.rcode == w.rcode.SERVFAIL, "a failing query is answered with SERVFAIL")
        ctx.check(body.count == 0 and not body.tc, "an error has no answers")
        ctx.cover("servfail")
        return
    limit = 512
    if w.edns in ("opt", "other opt"):
        limit = smax(w.limit, 512)
    ctx.check(implies(w.n == 0, body.rcode == w.rcode.NXDOMAIN), "no records: NXDOMAIN")
    ctx.check(implies(w.n > 0, body.rcode == 0), "records: NOERROR")
    fits = True if not udp else (disj(w.n == 0, w.full <= limit))
    ctx.check(implies(fits, conj(body.count == w.n, body.tc == 0)),
              "a reply within the limit is complete and without TC")
    ctx.check(implies(core.negate(fits), body.tc == 1),
              "a UDP reply longer than the limit has the TC bit")
    if udp:
        ctx.check(body.__vc_len__() <= limit, "a UDP reply is never longer than the limit")
    ctx.cover("answer")


def udp(ctx):
    mod = load("aiomisc.service.dns.service", transform=ctx.sym)
    need(mod, "UDPDNSServer", "dnslib")
    w = world(ctx, mod)
    s = mod.UDPDNSServer.__new__(mod.UDPDNSServer)
    s.store = w.store
    sent = []
    s.sendto = lambda data, addr: sent.append((data, addr))
    addr = ("host", 1)
    st, v = drive(s.handle_datagram(w.data, addr), lambda q: Ret(None))
    ctx.check(st == "ret", "one failing query does not stop the server", v)
    ctx.check(len(sent) == 1 and sent[0][1] is addr, "one reply to the sender")
    ctx.check(w.parsed == [w.data], "the datagram is parsed")
    judge(ctx, w, sent[0][0], True)


def tcp_reply(ctx):
    mod = load("aiomisc.service.dns.service", transform=ctx.sym)
    need(mod, "TCPDNSServer", "dnslib")
    w = world(ctx, mod)
    s = mod.TCPDNSServer.__new__(mod.TCPDNSServer)
    need(s, "handle_request")
    s.store = w.store
    try:
        body, addr = s.handle_request(data=w.data, addr=("host", 1))
    except Exception as e:
        ctx.fail("one failing query does not stop the server", e)
    ctx.check(w.parsed == [w.data], "the request is parsed")
    judge(ctx, w, body, False)


def tcp(ctx):
    """framing: any number of requests, any fragmentation"""
    mod = load("aiomisc.service.dns.service", transform=ctx.sym)
    need(mod, "TCPDNSServer", "TCP_HEADER_STRUCT")
    need(mod.TCPDNSServer, "handle_request")
    s = mod.TCPDNSServer.__new__(mod.TCPDNSServer)

    class G:
        state = "header"    # what the stream contains next
        length = None
        packet = None
        wrote = []
        owed = None
        closed = 0
        handled = 0
        stop = False

    class Tok:
        def __init__(self, kind, n, whole=True):
            self.kind, self.n, self.whole = kind, n, whole

        def __vc_len__(self):
            return self.n

        def __bool__(self):
            return bool(self.n > 0)

        def __len__(self):
            return self.n

        def __add__(self, o):
            return [self, o] if not isinstance(o, list) else [self] + o

    class Struct:
        size = 2

        def unpack(self, tok):
            ctx.check(isinstance(tok, Tok) and tok.kind == "header" and tok.whole,
                      "the length is read from the header")
            return (G.length,)

        def pack(self, n):
            if n < 0 or n > 65535:
                raise struct.error("format requires 0 <= number <= 65535")
            return Tok("len", 2, n)
    mod.TCP_HEADER_STRUCT = Struct()

    class Reader:
        async def readexactly(self, n):
            return await Suspend("readexactly", n)

        async def read(self, n=-1):
            return await Suspend("read", n)

        def at_eof(self):
            return False

    class Writer:
        def get_extra_info(self, name, default=None):
            return ("peer", 1)

        def write(self, x):
            G.wrote.extend(x if isinstance(x, list) else [x])

        def writelines(self, xs):
            for x in xs:
                self.write(x)

        def close(self):
            G.closed += 1

        def is_closing(self):
            return bool(G.closed)

        async def drain(self):
            await Suspend("drain")

        async def wait_closed(self):
            await Suspend("wait_closed")

    def settled():
        """everything owed has been written, exactly framed"""
        if G.owed is None:
            ctx.check(not G.wrote, "nothing is written but replies")
            return
        ok = len(G.wrote) == 2 and isinstance(G.wrote[0], Tok) and G.wrote[0].kind == "len" \
            and G.wrote[1] is G.owed
        ctx.check(ok, "a reply is preceded by its length")
        ctx.check(G.wrote[0].whole == G.owed.n, "the length is exact")
        G.owed, G.wrote = None, []
        ctx.cover("reply")

    def handle_request(addr=None, data=None, should_truncate=False):
        ctx.check(not should_truncate, "TCP replies are not truncated")
        ctx.check(data is G.packet and G.packet is not None, "the whole request is parsed")
        G.packet = None
        G.handled += 1
        if ctx.choose(2, "malformed"):
            G.stop = True
            raise Falsy("parse")
        size = ctx.int("reply size", 12, near=300)
        ctx.assume(size <= 70000)
        G.owed = Tok("reply", size)
        if size > 65535:
            G.stop = True
        return G.owed, addr
    s.handle_request = handle_request

    def handler(q):
        if q.kind in ("read", "readexactly"):
            ctx.check(not G.stop, "nothing is read after a failure")
            if G.owed is not None or G.wrote:
                settled()
            how = ctx.pick(("data", "eof", "cancelled", "reset"), "read")
            if how == "cancelled":
                G.stop = True
                return Exc(asyncio.CancelledError())
            if how == "reset":
                G.stop = True
                return Exc(ConnectionResetError())
            if how == "eof":
                G.stop = True
                if q.kind == "read":
                    return Ret(Tok("eof", 0))
                return Exc(asyncio.IncompleteReadError(b"", 2))
            n = q.args[0]
            if G.state == "header":
                ctx.check(n == 2, "the header is read first")
                G.length = ctx.int("length", 0, near=600)
                ctx.assume(G.length <= 65535)
                G.state = "packet"
                if q.kind == "read":
                    # may be any shorter part
                    if ctx.choose(2, "short read"):
                        return Ret(Tok("header", 1, False))
                return Ret(Tok("header", 2))
            ctx.check(n == G.length, "the request is read by its length")
            G.state = "header"
            if q.kind == "read" and G.length > 0 and ctx.choose(2, "short read"):
                k = ctx.int("part", 1)
                ctx.assume(k < G.length)
                ctx.feasible()
                G.state = "packet"
                return Ret(Tok("packet", k, False))
            G.packet = Tok("packet", G.length)
            return Ret(G.packet)
        if q.kind == "drain":
            how = ctx.pick(("ok", "reset", "cancelled"), "drain")
            if how == "reset":
                G.stop = True
                return Exc(ConnectionResetError())
            if how == "cancelled":
                G.stop = True
                return Exc(asyncio.CancelledError())
            return Ret(None)
        if q.kind == "wait_closed":
            return Ret(None)
        raise core.Unsupported(q.kind)

    def havoc(c):
        if c.choose(2, "first iteration") == 0:
            return
        c.abstract += 0
        G.handled = 1

    def inv(c):
        if G.owed is not None or G.wrote:
            settled()
        return [(G.state == "header", "between requests"), (G.packet is None, "no request is lost"),
                (not G.stop, "goes on only without failure")]
    ctx.loops = {("while",): Cut(havoc, inv, obj=lambda c, n, v: v)}
    if not ctx.sym:
        ctx.loops = {}
    st, v = drive(s.handle_client(Reader(), Writer()), handler)
    if not G.stop:
        ctx.fail("the connection is served until it ends", (st, v))
    ctx.check(G.closed >= 1, "the connection is closed at the end")
    if st == "exc":
        ctx.check(not isinstance(v, asyncio.IncompleteReadError), "the end of the stream is not an error")


def datagram(ctx):
    mod = load("aiomisc.service.udp", transform=ctx.sym)
    need(mod, "UDPServer")
    need(mod.UDPServer, "UDPSimpleProtocol")
    calls, tasks = [], []

    class Co:
        def __await__(self):
            return iter(())

        def close(self):
            pass

    async def handle(data, addr):
        calls.append((data, addr))

    def factory(co, *a, **k):
        tasks.append(co)
        return object()
    p = mod.UDPServer.UDPSimpleProtocol(handle, factory)
    d, a = object(), object()
    p.datagram_received(d, a)
    ctx.check(len(tasks) == 1, "each datagram is handled in a task of its own")
    drive(tasks[0], lambda q: Ret(None))
    ctx.check(calls == [(d, a)], "the handler gets the datagram and its sender")


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    from pyvc import simloop
    import dnslib
    D = importlib.import_module("aiomisc.service.dns")
    R = importlib.import_module("aiomisc.service.dns.records")
    store = D.DNSStore()
    zone = D.DNSZone("test.")
    other = D.DNSZone("sub.test.")
    store.add_zone(zone)
    store.add_zone(other)
    held = {}
    makers = {
        1: lambda n, i: R.A.create(n, "10.0.%d.%d" % (i // 250, i % 250)),
        28: lambda n, i: R.AAAA.create(n, "fd00::%x" % i),
        16: lambda n, i: R.TXT.create(n, "t%d-" % i + "x" * rng.randint(0, 200)),
        15: lambda n, i: R.MX.create(n, "m%d.test." % i, i),
    }
    for name in ("a.test.", "B.test.", "x.sub.test.", "test."):
        for t in rng.sample(list(makers), rng.randint(0, 3)):
            z = other if "sub" in name else zone
            rs = [makers[t](name, i) for i in range(rng.choice((1, 2, 5, 14, 27, 28, 29, 60, 200)))]
            for r in rs:
                z.add_record(r)
            held[name.lower(), t] = rs

    class Boom:
        def rr(self, t):
            raise Falsy("boom")

    def make(udp):
        n = rng.choice(("a.test.", "b.TEST.", "x.sub.test.", "test.", "no.test.", "other.", "fail.test."))
        t = rng.choice(list(makers) * 6 + [62000])
        q = dnslib.DNSRecord.question(n, dnslib.QTYPE.get(t) if t in makers else "A")
        q.questions[0].qtype = t
        q.header.id = rng.randint(0, 65535)
        ed = None
        if rng.random() < .6:
            ed = rng.choice((0, 100, 511, 512, 513, 600, 1232, 4096, 65535, rng.randint(0, 3000)))
            q.add_ar(dnslib.EDNS0(udp_len=ed))
            if rng.random() < .3 and (n.lower(), t) in held:
                full = q.reply()
                full.add_ar(dnslib.EDNS0(udp_len=ed))
                for r in held[n.lower(), t]:
                    full.add_answer(r.rr(t))
                q.ar[0].rclass = ed = len(full.pack()) + rng.choice((-1, 0, 1))
        return q, n, t, ed

    def judge(q, n, t, ed, data, udp):
        rep = dnslib.DNSRecord.parse(data)
        d = "%s %s edns=%s len=%d udp=%s" % (n, t, ed, len(data), udp)
        assert rep.header.id == q.header.id and rep.header.qr == 1, "same id " + d
        assert len(rep.questions) == 1 and str(rep.q.qname) == n and rep.q.qtype == t, "same question " + d
        exp = held.get((n.lower(), t), [])
        if n == "fail.test." or t == 62000:
            assert rep.header.rcode == dnslib.RCODE.SERVFAIL, "a failing query gets SERVFAIL " + d
            return
        assert rep.header.rcode == (dnslib.RCODE.NOERROR if exp else dnslib.RCODE.NXDOMAIN), "rcode " + d
        limit = max(ed or 0, 512) if udp else 65535
        if udp:
            assert len(data) <= limit, "UDP reply within the limit " + d
        full = q.reply()
        if ed is not None:
            full.add_ar(dnslib.EDNS0(udp_len=ed))
        for r in exp:
            full.add_answer(r.rr(t))
        if len(full.pack()) <= limit:
            assert rep.header.tc == 0, "no TC within the limit " + d
            got = sorted(str(r.rdata) for r in rep.rr)
            assert got == sorted(str(r.data) for r in exp), "complete answer %d/%d %s" % (len(got), len(exp), d)
            assert all(r.rtype == t and str(r.rname).lower() == n.lower() for r in rep.rr), "records of the name and type " + d
        else:
            assert rep.header.tc == 1, "TC beyond the limit " + d
            assert len(rep.rr) <= len(exp), "no invented records"

    def boom(name, typ):
        if name.startswith("fail."):
            return rng.choice(((Boom(),), 5))
        return store.query(name, typ)
    served = NS(store, query=boom)

    async def main(loop):

        udp = D.UDPDNSServer(address="127.0.0.1", port=0, store=served)
        udp.loop = loop
        sent = []

        class Tr:
            def sendto(self, data, addr):
                sent.append((data, addr))
        udp._transport = Tr()
        p = udp.UDPSimpleProtocol(udp.handle_datagram, udp.create_task)
        p.connection_made(Tr())
        qs = {}
        for k in range(6):
            q = make(True)
            addr = ("10.0.0.1", k)
            qs[addr] = q
            p.datagram_received(q[0].pack(), addr)
            if rng.random() < .2:
                p.datagram_received(b"\1\2\3", ("bad", k))
            if rng.random() < .5:
                await asyncio.sleep(0)
        await asyncio.sleep(1)
        assert sorted(a for d, a in sent) == sorted(qs), "one reply per query: %d of %d" % (len(sent), len(qs))
        for data, a in sent:
            judge(*qs[a], data, True)
        # TCP
        tcp = D.TCPDNSServer(address="127.0.0.1", port=0, store=served)
        tcp.loop = loop
        reader = asyncio.StreamReader()
        out = bytearray()

        class W:
            closed = False

            def write(self, b):
                out.extend(b)

            def writelines(self, bs):
                for b in bs:
                    out.extend(b)

            def get_extra_info(self, *a):
                return ("peer", 1)

            async def drain(self):
                await asyncio.sleep(0)

            def close(self):
                W.closed = True

            def is_closing(self):
                return W.closed

            async def wait_closed(self):
                pass
        qs = [make(False) for _ in range(rng.randint(1, 4))]
        stream = b"".join(struct.pack("!H", len(q[0].pack())) + q[0].pack() for q in qs)
        tail = rng.choice((b"", b"\0", struct.pack("!H", 40) + b"x" * 10))
        stream += tail
        t = loop.create_task(tcp.handle_client(reader, W()))
        while stream:
            k = rng.choice((1, 1, 2, 3, 10, 50, len(stream)))
            reader.feed_data(stream[:k])
            stream = stream[k:]
            for _ in range(rng.randint(0, 6)):
                await asyncio.sleep(0)
        reader.feed_eof()
        await asyncio.sleep(1)
        assert t.done() and t.exception() is None, "the connection ends quietly"
        assert W.closed, "the connection is closed"
        i = 0
        for q in qs:
            assert len(out) >= i + 2, "one reply per TCP query"
            (n,) = struct.unpack("!H", bytes(out[i:i + 2]))
            assert len(out) >= i + 2 + n, "length of the reply"
            judge(*q, bytes(out[i + 2:i + 2 + n]), False)
            i += 2 + n
        assert i == len(out), "nothing but replies"
    simloop.run(main)


HARNESSES = [("UDP reply", udp), ("TCP reply", tcp_reply), ("TCP framing", tcp), ("datagram", datagram)]
FUZZ = [("server", fuzz)]
FUZZ_S = 4
