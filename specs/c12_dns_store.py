"""C12: aiomisc.service.dns tree, zone and store."""
from pyvc import core
from pyvc.core import conj, disj, iff, implies, negate
from pyvc.symstr import SymStr
from pyvc.load import Cut, SymSeq, VarArgs, _valid, load, need

ASSUME = ["labels are hashable strings compared by ==; dict lookup is used through its contract",
          "names given to the store are valid DNS names (no empty labels, no escapes)"]
CONTRACTS = ["RadixTree.insert (keys of any length)", "RadixTree.search (keys of any length)",
             "RadixTree.find_prefix (keys of any length)", "DNSStore.query (composition)",
             "DNSStore.add_zone/remove_zone/get_zone (one step from any store)", "DNSStore.replace (any number of zones)",
             "DNSZone.check_record (zones and names of any length)",
             "DNSZone.replace/__init__/add_record (any number of records)",
             "DNSZone.add_record/remove_record/get_records (one step; records under other names and types are opaque)"]
BOUNDED = {"zone membership, enumerated": "all names up to 7 characters over {a,B,.}",
           "zone records": "up to six records"}


# ----------------------------------------------------------------- the tree

class Part:
    def __init__(self, i):
        self.i = i


class Tree:
    """the nodes along one key: node k exists / has a value"""

    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.cache = {}
        self.writes = []
        self.created = []
        self.key = SymSeq(n, self.memo("part", Part), "key")

    def memo(self, kind, f):
        def get(i):
            k = (kind, str(i))
            if k not in self.cache:
                self.cache[k] = f(i)
            return self.cache[k]
        return get

    def exists(self, i):
        return self.memo("exists", lambda i: True if isinstance(i, int) and i == 0
                         else self.ctx.bool("exists"))(i)

    def valued(self, i):
        return self.memo("valued", lambda i: self.ctx.bool("valued"))(i)

    def val(self, i):
        return self.memo("val", lambda i: Val(i))(i)

    def node(self, i):
        return self.memo("node", lambda i: Node(self, i))(i)


class Val:
    """a stored value, possibly falsy"""

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return False


class Node:
    def __init__(self, t, i):
        self.__dict__.update(t=t, i=i, children=Children(t, i), fresh=None)

    @property
    def value(self):
        if self.fresh is not None:
            return self.fresh.value
        for i, v in reversed(self.t.writes):
            if i is self.i or str(i) == str(self.i):
                return v
        return self.t.val(self.i) if self.t.valued(self.i) else None

    def __setattr__(self, k, v):
        if k != "value":
            raise core.Unsupported("node.%s is set" % k)
        self.t.writes.append((self.i, v))
        if self.fresh is not None:
            self.fresh.value = v


class Children:
    def __init__(self, t, i):
        self.t, self.i = t, i

    def own(self, part):
        if not isinstance(part, Part):
            raise core.Unsupported("another kind of label")
        self.t.ctx.check(part.i == self.i, "each label is looked up at its own level")

    def __contains__(self, part):
        self.own(part)
        return bool(self.t.exists(self.i + 1))

    def __getitem__(self, part):
        self.own(part)
        if not self.t.exists(self.i + 1):
            raise KeyError(part)
        return self.t.node(self.i + 1)

    def get(self, part, default=None):
        return self[part] if part in self else default

    def __setitem__(self, part, node):
        self.own(part)
        self.t.ctx.check(negate(self.t.exists(self.i + 1)),
                         "an existing branch of the tree is never replaced")
        self.t.ctx.check(node.value is None and not node.children and type(node.children) is dict,
                         "a new branch is empty")
        self.t.cache[("exists", str(self.i + 1))] = True
        self.t.node(self.i + 1).__dict__["fresh"] = node
        self.t.created.append(self.i + 1)

    def setdefault(self, part, node):
        if part not in self:
            self[part] = node
        return self[part]

    def __delitem__(self, part):
        raise core.Unsupported("branches are removed")

    pop = clear = popitem = update = __delitem__


class Prefix:
    """the first vc_num labels of the key, filled in place"""

    def __init__(self, t, n):
        self.t, self.vc_num = t, n

    def append(self, part):
        if not isinstance(part, Part):
            raise core.Unsupported("another kind of label")
        self.t.ctx.check(part.i == self.vc_num, "labels of the prefix are in order")
        self.vc_num = self.vc_num + 1

    def __vc_tuple__(self):
        return tup(self.t, self.vc_num)

    __vc_list__ = __vc_tuple__

    def __vc_len__(self):
        return self.vc_num


class Tup:
    def __init__(self, n):
        self.n = n


def tup(t, n):
    """the first n labels as a tuple; the same object for provably equal n"""
    if n == 0:
        return ()
    ts = t.cache.setdefault(("tuples",), [])
    for x in ts:
        if _valid(core.CURRENT, x.n == n):
            return x
    ts.append(Tup(n))
    return ts[-1]


def setup(ctx):
    mod = load("aiomisc.service.dns.tree", transform=ctx.sym)
    need(mod, "RadixTree", "RadixNode")
    n = ctx.int("length", 1) if ctx.choose(2, "labels") else 0
    t = Tree(ctx, n)
    tree = mod.RadixTree()
    need(tree, "root")
    need(mod.RadixNode(), "children", "value")
    tree.root = t.node(0)
    return mod, t, tree


def search(ctx):
    if not ctx.sym:
        return concrete(ctx)
    mod, t, tree = setup(ctx)
    g = {}

    def inv(c):
        i = c.iter_index
        return [(True, "depth")]

    def ghosts(c):
        return {"node": t.node(c.iter_index), "iter": c.iter_index}
    ctx.loops = {("for",): Cut(lambda c: None, inv, ghosts=ghosts, obj=lambda c, n, v: nodeof(c, t, v))}
    got = tree.search(t.key)
    n = t.n
    missing = [k for k in t.cache if k[0] == "exists" and t.cache[k] is not True]
    ctx.check(not t.writes and not t.created, "searching does not change the tree")
    if got is None:
        ctx.cover("nothing")
        ctx.check(disj(negate(t.valued(n)), *[negate(t.cache[k]) for k in missing]),
                  "a stored value is found")
    else:
        ctx.cover("value")
        ctx.check(isinstance(got, Val) and got is t.val(n), "the value of the key itself is found")
        ctx.check(t.valued(n), "a value is found only if stored")


def nodeof(c, t, v):
    if isinstance(v, Node):
        return t.node(c.int("depth", 0))
    if isinstance(v, (list, Prefix)):
        p = Prefix(t, c.int("prefix", 0))
        return p
    raise core.Unsupported("another local")


def find(ctx):
    if not ctx.sym:
        return concrete(ctx)
    mod, t, tree = setup(ctx)

    class G:
        i = 0
        L = None

    def have(i):
        """the deepest valued depth <= i, -1 if none"""
        if isinstance(i, int) and i == 0:
            return 0 if t.valued(0) else -1
        if G.i is i:
            return G.L
        if t.valued(i):         # i == G.i + 1
            return i
        return G.L

    def havoc(c):
        if G.L is None:
            G.L = have(0)
        G.i = c.iter_index
        G.L = c.int("deepest", -1)
        c.assume(G.L <= G.i)

    def ghosts(c):
        i = c.iter_index
        L = have(i)
        if L < 0:
            v, p = None, ()
        else:
            if L == 0:
                L = 0
            v, p = t.val(L), tup(t, L)
        return {"node": t.node(i), "iter": i, "value": v, "prefix": p}

    def inv(c):
        i, L = c.iter_index, have(c.iter_index)
        return [(conj(L >= -1, L <= i), "the deepest value is above")]

    def obj(c, n, v):
        if v is None or isinstance(v, (Val, tuple, Tup)):
            return object()
        return nodeof(c, t, v)
    ctx.loops = {("for",): Cut(havoc, inv, ghosts=ghosts, obj=obj)}
    got = tree.find_prefix(t.key)
    ctx.check(not t.writes and not t.created, "searching does not change the tree")
    L = have(0) if G.L is None else G.L
    if isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], Val):
        ctx.cover("found")
        ctx.check(L >= 0, "something is found only if stored")
        ctx.check(got[1].i == L, "the value of the longest prefix")
        n = 0 if got[0] == () else got[0].n if isinstance(got[0], Tup) else None
        if n is None:
            raise core.Unsupported("prefix of another kind")
        ctx.check(n == L, "the prefix is the key of the value found")
    elif got is None:
        ctx.cover("nothing")
        ctx.check(L < 0, "a stored prefix is found")
    else:
        raise core.Unsupported("result of another kind")


def insert(ctx):
    if not ctx.sym:
        return concrete(ctx)
    mod, t, tree = setup(ctx)

    def ghosts(c):
        return {"node": t.node(c.iter_index), "iter": c.iter_index}
    ctx.loops = {("for",): Cut(lambda c: None, lambda c: [(True, "depth")], ghosts=ghosts,
                               obj=lambda c, n, v: nodeof(c, t, v))}
    v = Val("new") if ctx.choose(2, "value") else None
    tree.insert(t.key, v)
    ctx.check(len(t.writes) == 1 and t.writes[0][1] is v, "the value is stored once")
    ctx.check(t.writes[0][0] == t.n, "the value is stored at its own key")
    ctx.cover("inserted")


def concrete(ctx):
    """the real tree against a dictionary, keys up to 4 labels"""
    mod = load("aiomisc.service.dns.tree", transform=False)
    t = mod.RadixTree()
    model = {}

    def key():
        return tuple(ctx.choose(2, "label") for _ in range(ctx.choose(5, "len")))
    for _ in range(ctx.choose(6, "ops")):
        k = key()
        v = Val("x") if ctx.choose(4, "value") else None
        t.insert(k, v)
        model[k] = v
    for _ in range(5):
        k = key()
        ctx.check(t.search(k) is model.get(k), "the value of the key itself is found")
        ps = [k[:i] for i in range(len(k) + 1) if model.get(k[:i]) is not None]
        r = t.find_prefix(k)
        if ps:
            ctx.check(r is not None and r[1] is model[ps[-1]],
                      "the value of the longest prefix")
            ctx.check(r[0] == ps[-1], "the prefix is the key of the value found")
        else:
            ctx.check(r is None, "something is found only if stored")


# ------------------------------------------------------------ zone and store

def member(ctx):
    """bounded: every record name of up to 7 characters over a, B and . """
    mod = load("aiomisc.service.dns.zone", transform=ctx.sym)
    need(mod, "DNSZone")
    zone = ctx.pick((".", "a.", "b", "a.b.", "B.a", "ab.", "A.a.a."), "zone")
    z = mod.DNSZone(zone)
    zl = [x for x in zone.lower().split(".") if x]

    class R:
        pass
    import itertools
    n = 0
    for m in range(1, 7):
        for w in itertools.product("aB.", repeat=m):
            name = "".join(w)
            if name.startswith(".") or ".." in name:
                continue
            name += "" if name.endswith(".") else "."
            ls = [x for x in name.lower().split(".") if x]
            r = R()
            r.name = name
            n += 1
            if bool(z.check_record(r)) != (ls[len(ls) - len(zl):] == zl and len(ls) >= len(zl)):
                ctx.fail("a record belongs to a zone when its name ends in the labels of the zone",
                         "%s %s" % (zone, name))
    ctx.check(n > 300, "names enumerated")


def belongs(ctx):
    """check_record for zones and names of any length"""
    mod = load("aiomisc.service.dns.zone", transform=ctx.sym)
    need(mod, "DNSZone")
    need(mod.DNSZone, "check_record")
    if not ctx.sym:
        return member(ctx)
    Z, N = SymStr.var(ctx, "zone"), SymStr.var(ctx, "name")
    zl, nl = Z.lower(), N.lower()
    # valid names: no empty label
    for s in (zl, nl):
        ctx.assume(disj(s == ".", negate(s.startswith("."))))
        ctx.assume(negate(s.endswith("..")))
        ctx.assume(negate(s == ""))
    ctx.assume(nl.endswith("."))        # the name of a record is absolute
    absolute = ctx.choose(2, "zone is given with the final dot")
    ctx.assume(zl.endswith(".") if absolute else negate(zl.endswith(".")))
    z = mod.DNSZone(Z)
    zone = zl if absolute else zl + "."

    class R:
        name = N
        type = None
    r = mod.DNSZone.check_record(z, R())
    want = disj(zone == ".", nl == zone, nl.endswith("." + zone))
    ctx.abstract += 1
    ctx.check(iff(r, want), "a record belongs to a zone when its name ends in the labels of the zone")
    ctx.cover("absolute" if absolute else "relative")


def zone_ops(ctx):
    """one operation on a zone in an arbitrary small state; observed at the
    same name/type, at another name and at another type"""
    mod = load("aiomisc.service.dns.zone", transform=ctx.sym)
    need(mod, "DNSZone")
    T1, T2 = mod.RecordType.A, mod.RecordType.AAAA
    mk = lambda name, typ, d: mod.DNSRecord(name=name, type=typ, data=d)
    x = mk("a.z.", T1, "1")
    recs = {"same": mk("a.z.", T1, "2"), "type": mk("a.z.", T2, "1"),
            "name": mk("b.z.", T1, "1"), "case": mk("A.Z.", T1, "3"),
            "sub": mk("b.a.z.", T1, "1")}
    z = mod.DNSZone("z")
    held = set()
    for k, r in recs.items():
        if ctx.choose(2, k):
            z.add_record(r)
            held.add(r)
    if ctx.choose(2, "x"):
        z.add_record(x)
        held.add(x)
    op = ctx.pick(("add", "remove", "replace", "replace fails", "add foreign"), "op")
    foreign = mk("a.zz.", T1, "1")
    if op == "add":
        z.add_record(x)
        held.add(x)
    elif op == "remove":
        z.remove_record(x)
        held.discard(x)
    elif op == "replace":
        new = [r for k, r in recs.items() if ctx.choose(2, "new " + k)]
        z.replace(iter(new))
        held = set(new)
    else:
        bad = mk(ctx.pick(("a.y.", "xz.", "z.a."), "foreign"), T1, "1")
        try:
            if op == "add foreign":
                z.add_record(bad)
            else:
                z.replace([recs["same"], bad])
            ctx.fail("a record of another zone is refused")
        except ValueError:
            pass
    for name in ("a.z.", "A.z", "a.z", "b.z.", "z.", "b.a.z.", "a.y.", "xz."):
        for typ in (T1, T2):
            exp = {r for r in held if r.type == typ
                   and r.name.lower() == name.lower().rstrip(".") + "."}
            got = z.get_records(name, typ)
            ctx.check(len(got) == len(exp) and set(got) == exp,
                      "exactly the records held under the name and type", "%s %s" % (op, name))


class View(core.Abstract):
    """the records under one key, seen from one record"""

    def __init__(self, m, key):
        self.m, self.key = m, key

    def add(self, r):
        if r is self.m.w:
            self.m.at.append(self.key)

    def update(self, rs):
        for r in rs:
            self.add(r)

    def discard(self, r):
        if r is self.m.w and self.key in self.m.at:
            self.m.at.remove(self.key)


class AMap(core.Abstract):
    """records by key, of any size, seen from one record: the keys it is under"""

    def __init__(self, w, num, at=()):
        self.w, self.vc_num, self.at = w, num, list(at)

    def __getitem__(self, k):
        return View(self, k)

    def setdefault(self, k, v):
        if len(v):
            raise core.Unsupported("setdefault")
        return View(self, k)

    def __setitem__(self, k, v):
        if k in self.at:
            self.at.remove(k)
        if self.w in v:
            self.at.append(k)


def bulk(ctx):
    """replacing (or creating a zone with) any number of records, seen from one
    of them"""
    mod = load("aiomisc.service.dns.zone", transform=ctx.sym)
    need(mod, "DNSZone")
    if not ctx.sym:
        return
    how = ctx.pick(("replace", "create"), "how")

    class Rec:
        def __init__(self, mine, foreign):
            self.mine, self.foreign = mine, foreign
            self.name, self.type = ctx.pick(("a.z.", "A.z.", "b.z."), "name"), ctx.pick((1, 2), "type")
            if foreign:
                self.name = "a.y."
    w = Rec(True, ctx.choose(2, "foreign"))
    key = (w.name.lower(), w.type)
    n = ctx.int("n", 0)
    j = ctx.int("j", 0)
    G = {"foreign": False}

    def other():
        r = Rec(False, ctx.choose(2, "other foreign"))
        G["foreign"] = G["foreign"] or bool(r.foreign)
        return r
    seq = SymSeq(n, lambda i: w, "records", j, other)
    ctx.assume(j <= n)       # j == n: the record is not among them

    def fresh(*a):
        if a and a[0] is not set:
            raise core.Unsupported("another map")
        return AMap(w, 0)
    mod.defaultdict = fresh
    old = AMap(w, 0, [key] if ctx.choose(2, "held before") else [])
    z = None
    zone = []

    def inv(c):
        ms = [m for m in list(c.loc.values()) + [getattr(x, "records", None) for x in zone + [c.loc.get("self")]]
              if isinstance(m, AMap) and m is not old]
        i = c.iter_index
        there = core.conj(i > j, j < n) if not isinstance(i, int) or i else False
        return [(iff(len(m.at) == 1 and m.at[0] == key, there), "held exactly when it was among the records so far")
                for m in ms] + [(iff(not m.at, negate(there)), "held once") for m in ms] + [
                    (not w.foreign or not there is True, "foreign records are refused")]

    def mk(c, m):
        r = AMap(w, c.int("size", 0))
        if c.choose(2, "seen"):
            r.at.append(key)
        return r

    def havoc(c):
        me = c.loc.get("self")
        if how == "create" and me is not None and isinstance(me.records, AMap):
            me.records = mk(c, me.records)

    def obj(c, nm, v):
        return mk(c, v) if isinstance(v, AMap) else v
    ctx.loops = {("for",): Cut(havoc, inv, obj=obj)}
    ok = True
    try:
        if how == "create":
            z = mod.DNSZone.__new__(mod.DNSZone)
            mod.DNSZone.__init__(z, "z", VarArgs(seq))
        else:
            z = mod.DNSZone("z")
            z.records = old
            before = list(old.at)
            z.replace(seq)
    except ValueError:
        ok = False
    if not isinstance(z.records, AMap):
        raise core.Unsupported("records are kept in another way")
    ctx.abstract += 1
    if not ok:
        if how == "replace":
            ctx.check(z.records is old and old.at == before, "nothing is replaced if a record is refused")
        ctx.check(w.foreign or G["foreign"], "records of the zone are accepted")
        ctx.cover("refused")
        return
    there = core.conj(j < n)
    ctx.check(implies(there, not w.foreign), "a record of another zone is refused")
    ctx.check(iff(z.records.at == [key], there), "exactly the records given are held, under their name and type")
    ctx.check(iff(z.records.at == [], negate(there)), "exactly the records given are held, under their name and type")
    ctx.cover(how)


def query(ctx):
    """DNSStore.query over the contracts of tree and zone"""
    mod = load("aiomisc.service.dns.store", transform=ctx.sym)
    need(mod, "DNSStore")
    s = mod.DNSStore()
    need(s, "zones")
    name = ctx.pick(("www.Example.com.", "example.com", "com.", ".", "a.b.c.d.e."), "name")
    labels = tuple(reversed([x.lower() for x in name.split(".") if x]))
    G = {"get": []}
    answer = (object(), object())
    hit = ctx.choose(len(labels) + 2, "prefix length")

    class Zone:
        def __bool__(self):
            return True

        def get_records(self, n, t):
            G["get"].append((n, t))
            return answer
    zone = Zone()

    class T:
        def find_prefix(self, key):
            ctx.check(tuple(key) == labels, "the name is looked up by its labels, root first")
            return None if hit > len(labels) else (labels[:hit], zone)

        def search(self, key):
            ctx.check(tuple(key) == labels[:hit], "the zone found is asked")
            return zone
    s.zones = T()
    typ = object()
    r = s.query(name, typ)
    if hit > len(labels):
        ctx.cover("no zone")
        ctx.check(len(r) == 0 and not G["get"], "no zone, no records")
    else:
        ctx.cover("zone")
        ctx.check(r == answer and len(G["get"]) == 1, "the answer is what the zone holds")
        n, t = G["get"][0]
        ctx.check(n.lower().rstrip(".") == name.lower().rstrip(".") and t is typ,
                  "the zone is asked for the name and type")


class ATree(core.Abstract):
    """a tree of any size through its contract, seen from one key"""

    def __init__(self, key, val, num=0):
        self.key, self.val, self.vc_num, self.ins = key, val, num, 0

    def search(self, k):
        if tuple(k) == self.key:
            return self.val
        return core.CURRENT.pick((None, Held()), "another zone")

    def insert(self, k, v):
        self.ins += 1
        if tuple(k) == self.key:
            self.val = v


class Held:
    name = "held."

    def get_records(self, *a):
        return ()


NAMES = {"www.Example.com": ("com", "example", "www"), "Example.COM.": ("com", "example"), "com.": ("com",),
         ".": (), "a.b.c.": ("c", "b", "a")}


def store(ctx):
    """add_zone, remove_zone, get_zone and replace (any number of zones) of a
    store with any zones, seen from one zone name"""
    mod = load("aiomisc.service.dns.store", transform=ctx.sym)
    need(mod, "DNSStore", "DNSZone", "RadixTree")
    s = mod.DNSStore()
    need(s, "zones")
    name = ctx.pick(sorted(NAMES), "name")
    key = NAMES[name]
    there = Held() if ctx.choose(2, "zone exists") else None
    s.zones = t = ATree(key, there)
    case = ctx.pick((name, name.lower(), name.upper()), "written as")
    op = ctx.pick(("add", "remove", "get", "replace"), "op")
    if op == "get":
        ctx.check(s.get_zone(case) is there, "the zone of that name is found")
        ctx.cover("get")
        return
    if op in ("add", "remove"):
        z = mod.DNSZone(case)
        try:
            s.add_zone(z) if op == "add" else s.remove_zone(case)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == ((there is None) == (op == "add")), "a zone is added once and removed if it exists", op)
        ctx.check(s.zones is t and t.ins == (1 if ok else 0), "no other zone is touched")
        want = there if not ok else z if op == "add" else None
        ctx.check(t.val is want, "exactly that zone is added or removed")
        ctx.cover(op)
        return
    fails = []

    class Zone:
        def __init__(self, n, *rs):
            self.name = n if n.endswith(".") else n + "."
            self.rs = rs
            if ctx.choose(2, "a record is refused"):
                fails.append(1)
                raise ValueError("record")
    mod.DNSZone = Zone
    mine = (object(), object())
    trees = []

    def tree():
        trees.append(ATree(key, None))
        return trees[-1]

    class Tree:
        def __new__(cls, *a):
            return tree()

        def __class_getitem__(cls, x):
            return cls
    mod.RadixTree = Tree

    def other():
        return (ctx.pick([n for n in sorted(NAMES) if NAMES[n] != key], "other name"), (object(),))
    if ctx.sym:
        n, j = ctx.int("n", 0), ctx.int("j", 0)
        ctx.assume(j <= n)
        items = SymSeq(n, lambda i: (case, mine), "zones", j, other)
    else:
        n, j = ctx.choose(4, "n"), ctx.choose(4, "j")
        if j > n:
            raise core.Discard
        items = [(case, mine) if i == j else other() for i in range(n)]

    class Data:
        def items(self):
            return items

    def inv(c):
        i = c.iter_index
        in_ = core.conj(i > j, j < n) if not isinstance(i, int) or i else False
        r = [(s.zones is t, "the old zones stay until all the new ones are there")]
        for x in [v for v in c.loc.values() if isinstance(v, ATree)]:
            r += [(iff(x.val is not None, in_), "a zone is there exactly when it was among those so far"),
                  (x.val is None or (tuple(x.val.rs) == mine and x.val.name.lower() == case.lower().rstrip(".") + "."),
                   "with its records")]
        return r

    def obj(c, nm, v):
        if not isinstance(v, ATree):
            return v
        r = ATree(key, None, c.int("size", 0))
        if c.choose(2, "seen"):
            r.val = Held()
            r.val.rs, r.val.name = mine, case if case.endswith(".") else case + "."
        return r
    ctx.loops = {("for",): Cut(lambda c: None, inv, obj=obj)}
    try:
        s.replace(Data())
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == (not fails), "invalid data is refused, other data is not")
    if not ok:
        ctx.check(s.zones is t and t.val is there, "nothing is replaced if anything is refused")
        ctx.cover("refused")
        return
    got = s.zones
    if not isinstance(got, ATree):
        raise core.Unsupported("another tree")
    in_ = core.conj(j < n)
    ctx.check(got is not t and iff(got.val is not None, in_), "exactly the zones given are there")
    ctx.check(got.val is None or tuple(got.val.rs) == mine, "each zone has its records")
    ctx.cover("replaced")


# ------------------------------------------------------------- executions

def fuzz(rng):
    import importlib
    D = importlib.import_module("aiomisc.service.dns")
    R = importlib.import_module("aiomisc.service.dns.records")
    alpha = rng.choice((["a", "b"], ["a", "b", "ab"], ["a", "Aa", "b", "xa"]))

    def case(n):
        return "".join(c.upper() if rng.random() < .2 else c for c in n)

    def name(lo=0, hi=4):
        ls = [rng.choice(alpha) for _ in range(rng.randint(lo, hi))]
        return case(".".join(ls) + ".")

    def norm(n):
        return n.lower().rstrip(".") + "."
    makers = [
        lambda n, i: R.A.create(n, "10.0.0.%d" % i),
        lambda n, i: R.AAAA.create(n, "fd00::%d" % i),
        lambda n, i: R.CNAME.create(n, "t%d." % i),
        lambda n, i: R.MX.create(n, "m.", i),
        lambda n, i: R.TXT.create(n, "text%d" % i),
        lambda n, i: R.SOA.create(n, "m.", "r.", i, 1, 1, 1, 1),
        lambda n, i: R.NS.create(n, "t%d." % i),
        lambda n, i: R.SRV.create(n, i, 1, 1, "t."),
        lambda n, i: R.CAA.create(n, i, "issue", "x"),
        lambda n, i: R.PTR.create(n, "t%d." % i),
        lambda n, i: R.LOC.create(n, 10. + i, 1., 1., 1., 1., 1.),
        lambda n, i: R.RP.create(n, "m%d." % i, "t."),
        lambda n, i: R.DS.create(n, i, 1, 1, "abcd"),
        lambda n, i: R.DNSKEY.create(n, i, 3, 1, "abcd"),
        lambda n, i: R.TLSA.create(n, i, 1, 1, "abcd"),
        lambda n, i: R.SSHFP.create(n, i, 1, "abcd"),
        lambda n, i: R.NAPTR.create(n, i, 1, "S", "x", "", "."),
        lambda n, i: R.DNAME.create(n, "t%d." % i),
        lambda n, i: R.NSEC.create(n, "t%d." % i, [1]),
        lambda n, i: R.HTTPS.create(n, i, "t.", []),
    ]
    used = rng.sample(makers, 3)
    store = D.DNSStore()
    away = []
    zones = {}      # normal name -> (zone, {record key -> record})

    def key(r):
        return (r.name, r.type, repr(sorted(map(str, vars(r.data).items()))))

    def below(n, z):
        a, b = n.strip(".").split("."), z.strip(".").split(".")
        b = [x for x in b if x]
        return a[len(a) - len(b):] == b if b else True

    def find(n):
        zs = [z for z in zones if below(norm(n), z)]
        return max(zs, key=lambda z: 0 if z == "." else len(z.strip(".").split("."))) if zs else None
    trace = []
    for _ in range(rng.randint(1, 25)):
        op = rng.random()
        if op < .3:
            z = name(0, 3)
            if away and rng.random() < .3:
                # a zone which has been removed is added again
                zone, held = away.pop()
                z = zone.name
            else:
                zone, held = D.DNSZone(z if rng.random() < .7 or z == "." else z[:-1]), {}
            trace.append(("add", z))
            try:
                store.add_zone(zone)
                assert norm(z) not in zones, "zone added twice"
                zones[norm(z)] = (zone, held)
            except ValueError:
                assert norm(z) in zones, "zone %s refused: %s" % (z, trace)
        elif op < .4 and zones:
            z = rng.choice(list(zones)) if rng.random() < .8 else norm(name())
            trace.append(("remove", z))
            try:
                store.remove_zone(case(z))
                assert z in zones, "removed a missing zone"
                away.append(zones.pop(z))
            except ValueError:
                assert z not in zones, "zone not removed"
        elif op < .8 and zones:
            z = rng.choice(list(zones))
            zone, held = zones[z]
            n = rng.choice((name(), case(rng.choice(alpha) + "." + z.lstrip(".")), case(z)))
            r = rng.choice(used)(n, rng.randint(1, 3))
            trace.append(("record", z, n))
            if rng.random() < .75:
                try:
                    zone.add_record(r)
                    assert below(norm(n), z), "record %s accepted in %s" % (n, z)
                    held[key(r)] = r
                except ValueError:
                    assert not below(norm(n), z), "record %s refused in %s" % (n, z)
            else:
                zone.remove_record(r)
                held.pop(key(r), None)
        elif op < .85 and zones:
            z = rng.choice(list(zones))
            zone, held = zones[z]
            rs = [rng.choice(used)(rng.choice((z, "a." + z.lstrip("."))), i) for i in range(rng.randint(0, 3))]
            if rng.random() < .3:
                rs.insert(rng.randint(0, len(rs)), used[0]("q.q.q.", 1))
            ok = all(below(norm(r.name), z) for r in rs)
            trace.append(("zone.replace", z, ok))
            try:
                zone.replace(iter(rs))
                assert ok, "foreign records accepted"
                held.clear()
                held.update((key(r), r) for r in rs)
            except ValueError:
                assert not ok, "records refused"
        elif op < .9:
            data = {}
            for _ in range(rng.randint(0, 3)):
                z = norm(name(0, 3))
                data[z] = [used[0](z, i) for i in range(rng.randint(0, 2))]
            bad = rng.random() < .3 and data
            if bad:
                data[norm("q." + name(0, 1).lstrip("."))] = [used[0]("zz.", 1)]
            trace.append(("store.replace", list(data), bool(bad)))
            try:
                store.replace(data)
                assert not bad, "invalid data accepted"
                zones = {z: (store.get_zone(z), {key(r): r for r in rs}) for z, rs in data.items()}
            except ValueError:
                assert bad, "valid data refused"
        for _ in range(3):
            n = name(0, 5) if rng.random() < .7 or not zones else case(
                rng.choice(alpha) + "." + rng.choice(list(zones)).lstrip("."))
            if zones and rng.random() < .3:
                n = case(rng.choice(list(zones)))
            if rng.random() < .3:
                hs = [r for _, h in zones.values() for r in h.values()]
                n = case(rng.choice(hs).name) if hs else n
            typ = rng.choice(used)("a.", 1).type
            q = n if rng.random() < .7 or n == "." else n[:-1]
            z = find(n)
            exp = {} if z is None else {k: r for k, r in zones[z][1].items()
                                        if norm(r.name) == norm(n) and r.type == typ}
            got = store.query(q, typ)
            assert sorted(map(repr, map(key, got))) == sorted(map(repr, exp)), \
                "query %s %s: %d records instead of %d, zones %s: %s" % (
                    q, typ, len(got), len(exp), list(zones), trace[-6:])
        for z in list(zones) + ["a.", "b.a."]:
            g = store.get_zone(case(z))
            assert g is (zones[z][0] if z in zones else None), "get_zone %s" % z


HARNESSES = [("search", search), ("find_prefix", find), ("insert", insert),
             ("zone membership", belongs), ("zone membership, enumerated", member), ("zone records, any number", bulk), ("zone records", zone_ops), ("query", query), ("store", store)]
FUZZ = [("store", fuzz)]
FUZZ_S = 4
