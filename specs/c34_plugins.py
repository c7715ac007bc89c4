"""C34: plugins (aiomisc.plugins)."""
import contextlib
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile
import types

from pyvc import core
from pyvc.aio import NS, Sink
from pyvc.core import conj, iff, ite
from pyvc.load import Cut, SymSeq, load, need

from .c26_servers import Thing, guard

ASSUME = ["importlib.metadata discovers the installed distributions and loads what an entry point names",
          "names of entry points are strings",
          "itertools.chain, sorted and MappingProxyType are replaced by or used through their contracts"]
BOUNDED = {"few": "up to three entry points", "found": "up to two distributions with up to two entry points",
           "listed": "up to three plugins"}
CONTRACTS = ["setup_plugins", "entry_pont_iterator", "aiomisc.plugins.__main__.main"]


class Failed(Exception):
    pass


class NoRun:
    """the environment while the module is loaded"""

    def __init__(self, **env):
        self.env = env

    def __enter__(self):
        self.old = os.environ.get("AIOMISC_NO_PLUGINS")
        os.environ.pop("AIOMISC_NO_PLUGINS", None)
        os.environ.update(self.env)

    def __exit__(self, *a):
        os.environ.pop("AIOMISC_NO_PLUGINS", None)
        if self.old is not None:
            os.environ["AIOMISC_NO_PLUGINS"] = self.old


def get(ctx):
    with NoRun(AIOMISC_NO_PLUGINS="1"):
        mod = load("aiomisc.plugins", transform=ctx.sym)
    need(mod, "setup_plugins", "entry_pont_iterator", "logging", "plugins")
    return mod


class View:
    """a dictionary of plugins seen from the name "mine": ``val`` is what is
    stored under it, ``vc_num`` how many names there are"""

    def __init__(self, ctx, val, count, gen, policy):
        self.ctx, self.val, self.vc_num, self.gen, self.policy = ctx, val, count, gen, policy

    def __setitem__(self, k, v):
        if k == "mine":
            if self.val is None:
                self.vc_num = self.vc_num + 1
            self.val = v
        elif self.ctx.choose(2, "a new name"):
            self.vc_num = self.vc_num + 1

    def pick(self, k):
        if k == "mine":
            return self.val
        if k == "other":
            return self.gen()
        raise core.Unsupported("another name is looked up")

    def __getitem__(self, k):
        v = self.pick(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self.pick(k)
        return d if v is None else v

    def __contains__(self, k):
        return self.pick(k) is not None

    def setdefault(self, k, v):
        if self.pick(k) is None:
            self[k] = v
        return self.val

    def __vc_len__(self):
        return self.vc_num

    def __bool__(self):
        return bool(self.vc_num > 0)

    def seq(self, elem):
        ctx, val = self.ctx, self.val
        j = None
        if val is not None:
            j = ctx.int("place", 0)
            ctx.assume(j < self.vc_num)
        s = SymSeq(self.vc_num, lambda i: elem("mine", val), "the names", j, lambda: elem("other", self.gen()),
                   policy=self.policy(j))
        s.policy_for = self.policy
        return s

    def items(self):
        return self.seq(lambda k, v: (k, v))

    def keys(self):
        return self.seq(lambda k, v: k)

    def values(self):
        return self.seq(lambda k, v: v)


class Chain:
    """contract of itertools.chain for two sequences of any length"""

    def __call__(self, *seqs):
        if not any(isinstance(s, SymSeq) for s in seqs):
            return itertools.chain(*seqs)
        n, j, w = 0, None, None
        for s in seqs:
            if not isinstance(s, SymSeq):
                raise core.Unsupported("a mixed chain")
            if s.witness is not None:
                j, w = n + s.witness, s
            n = n + s.n
        return SymSeq(n, lambda i: w.at(w.witness), "chain", j, seqs[0].generic, policy=seqs[0].policy_for(j))

    def from_iterable(self, it):
        return self(*it)


def plugins(ctx):
    """any number of entry points of both groups, seen from one of them"""
    if not ctx.sym:
        return few(ctx)
    mod = get(ctx)
    mod.logging = NS(logging, getLogger=lambda *a: Sink())
    counts = {"aiomisc.plugins": ctx.int("entry points", 0), "aiomisc": ctx.int("entry points of the other group", 0)}
    home = ctx.pick(sorted(counts), "group")
    at = ctx.int("mine", 0)
    ctx.assume(at < counts[home])
    errs = (Failed("load"), SystemExit(3))

    class G:
        loads = 0               # of mine
        stored = False          # something was loaded which has the name of mine
        up = 0                  # set up, of those which have the name of mine
        who = None
        phase = "loading"
        err = None
        views = []

    class Plugin:
        def __init__(self, ep):
            self.ep = ep

        def setup(self):
            G.phase = "setting up"
            ctx.check(self.ep.ok, "only plugins which were loaded are set up")
            ctx.check(G.err is None, "nothing is set up after a failure")
            if self.ep.name == "mine":
                G.up = G.up + 1
                G.who = self
            if ctx.choose(2, "setup fails"):
                G.err = Failed("setup")
                raise G.err

        def __bool__(self):
            return False

    class ModPlugin(Plugin, types.ModuleType):
        def __init__(self, ep):
            types.ModuleType.__init__(self, "plugin")
            self.ep = ep

    class EP:
        def __init__(self, name, ok=False):
            self.name, self.ok, self.loads = name, ok, 0
            self.obj = (ModPlugin if ctx.choose(2, "a module") else Plugin)(self)

        def load(self):
            ctx.check(G.phase == "loading", "all plugins are loaded before one is set up")
            ctx.check(self.loads == 0 and not self.ok, "each plugin is loaded once")
            self.loads += 1
            if self is mine:
                G.loads = G.loads + 1
            k = ctx.choose(3, "load fails")
            if k:
                raise errs[k - 1]
            self.ok = True
            if self.name == "mine":
                G.stored = True
            return self.obj
    mine = EP("mine")

    def other():
        return EP(ctx.pick(("mine", "other"), "name"))

    def loading(j):
        base = []

        def havoc(c):
            G.loads = c.int("loads", 0)
            G.stored = bool(c.choose(2, "stored"))

        def inv(c):
            i = c.iter_index
            if not base:
                base.append(G.loads)
            r = [(G.loads == base[0] + (ite(i > j, 1, 0) if j is not None else 0), "each plugin is loaded once"),
                 (G.stored or not mine.ok, "what was loaded is not lost"),
                 (G.phase == "loading", "all plugins are loaded before one is set up"),
                 (G.up == 0, "nothing is set up while plugins are loaded")]
            for x in c.loc.values():
                if isinstance(x, View):
                    r += [((x.val is not None) == G.stored, "a plugin is known exactly when it was loaded"),
                          (x.val is None or (x.val.ep.ok and x.val.ep.name == "mine"), "what is known was loaded"),
                          (x.vc_num >= (1 if x.val is not None else 0), "size")]
            return r

        def obj(c, nm, v):
            if isinstance(v, (dict, View)):
                if isinstance(v, dict) and v:
                    raise core.Unsupported("another dictionary")
                return View(c, EP("mine", True).obj if G.stored else None, c.int("names", 0),
                            lambda: EP("other", True).obj, setting)
            return v
        return Cut(havoc, inv, obj=obj)

    def setting(j):
        base = []

        def havoc(c):
            G.up = c.int("up", 0)
            G.phase = "setting up"

        def inv(c):
            if not base:
                base.append(G.up)
            return [(G.up == base[0] + (ite(c.iter_index > j, 1, 0) if j is not None else 0), "each plugin is set up once"),
                    (G.err is None, "nothing is set up after a failure")]
        return Cut(havoc, inv)

    def iterator(g):
        if g not in counts:
            return iter(())
        n = counts.pop(g)
        j = at if g == home else None
        s = SymSeq(n, lambda i: mine, g, j, other, policy=loading(j))
        s.policy_for = loading
        return s
    mod.chain = Chain()
    mod.entry_pont_iterator = iterator
    got, e = None, None
    with NoRun():
        try:
            got = mod.setup_plugins()
        except BaseException as x:
            if isinstance(x, (core.PathEnd, core.Unsupported, core.Discard, core.Restart)):
                raise
            e = x
    if G.err is not None:
        ctx.check(e is G.err, "a failing setup is raised", e)
        ctx.cover("setup fails")
        return
    ctx.check(e is None, "a plugin which can not be loaded does not matter to the others", e)
    ctx.check(G.loads == 1, "each plugin is loaded once", G.loads)
    has = "mine" in got
    ctx.check(has == G.stored and (has or not mine.ok), "the plugins are known by their names")
    ctx.check(G.up == (1 if has else 0), "each plugin which was loaded is set up", G.up)
    ctx.check(not has or got["mine"] is G.who, "a plugin which is known was set up")
    try:
        got["other"] = 1
        ctx.check(False, "the mapping of the plugins is read only")
    except TypeError:
        pass
    ctx.cover("set up" if has else "not loaded")


def few(ctx):
    """each plugin is loaded and set up once"""
    mod = get(ctx)
    mod.logging = NS(logging, getLogger=lambda *a: Sink())
    log = []
    n = ctx.choose(4, "entry points")
    groups = {"aiomisc.plugins": [], "aiomisc": []}
    errs = (Failed("load"), ImportError("x"), SystemExit(3))
    eps = []

    class Plugin:
        def __init__(self, ep):
            self.ep = ep

        def setup(self):
            log.append(("setup", self))
            if self.ep.bad == "setup":
                raise self.ep.err

        def __bool__(self):
            return False

    class EP:
        def __init__(self, i):
            self.group = "aiomisc.plugins" if ctx.choose(2, "group") else "aiomisc"
            same = i and ctx.choose(2, "the same name")
            self.name = eps[-1].name if same else "p%d" % i
            self.bad = ctx.pick((None, "load", "setup"), "fails")
            self.err = errs[ctx.choose(3, "error")] if self.bad == "load" and i == 0 else errs[0]
            self.loads = 0
            self.obj = Plugin(self)
            groups[self.group].append(self)
            eps.append(self)

        def load(self):
            self.loads += 1
            log.append(("load", self))
            if self.bad == "load":
                raise self.err
            return self.obj
    for i in range(n):
        EP(i)
    mod.entry_pont_iterator = lambda g: iter(list(groups.get(g, ())))
    off = n < 2 and ctx.pick((None, "1", "no"), "AIOMISC_NO_PLUGINS")
    with NoRun(**({"AIOMISC_NO_PLUGINS": off} if off else {})):
        try:
            got, e = mod.setup_plugins(), None
        except BaseException as x:
            if isinstance(x, (core.PathEnd, core.Unsupported, core.Discard, core.Restart)):
                raise
            got, e = None, x
    if off:
        ctx.check(e is None and not log and len(got) == 0, "no plugin is loaded when they are switched off")
        ctx.cover("off")
        return
    for ep in eps:
        ctx.check(ep.loads == 1, "each plugin is loaded once", ep.loads)
    order = groups["aiomisc.plugins"] + groups["aiomisc"]
    want = {}
    for ep in order:
        if ep.bad != "load":
            want.setdefault(ep.name, []).append(ep.obj)
    sets = [x[1] for x in log if x[0] == "setup"]
    ctx.check(len(set(map(id, sets))) == len(sets), "each plugin is set up once")
    ctx.check(len(set(p.ep.name for p in sets)) == len(sets), "one plugin of a name is set up")
    ctx.check(all(any(p is q for q in want.get(p.ep.name, ())) for p in sets), "only plugins which were loaded are set up")
    kinds = [x[0] for x in log]
    ctx.check(kinds == sorted(kinds), "all plugins are loaded before one is set up")
    failing = [p for p in sets if p.ep.bad == "setup"]
    if failing:
        ctx.check(e is not None and any(e is p.ep.err for p in failing), "a failing setup is raised", e)
        ctx.cover("setup fails")
        return
    ctx.check(e is None, "a plugin which can not be loaded does not matter to the others", e)
    ctx.check(len(sets) == len(want), "each plugin which was loaded is set up", (len(sets), len(want)))
    ctx.check(sorted(got) == sorted(want) and all(any(got[k] is p for p in want[k]) for k in want),
              "the plugins are known by their names", got)
    ctx.check(all(any(got[k] is p for p in sets) for k in want), "a plugin which is known was set up", got)
    try:
        got["other"] = 1
        ctx.check(False, "the mapping of the plugins is read only")
    except TypeError:
        pass
    ctx.cover("set up")


def discover(ctx):
    """the entry points of one group of all distributions: any number of
    distributions with any number of entry points, seen from one of them"""
    mod = load("aiomisc.compat", transform=ctx.sym)
    need(mod, "entry_pont_iterator", "Distribution")
    if not ctx.sym:
        return found(ctx, mod)
    nd, ne = ctx.int("distributions", 0), ctx.int("entry points", 0)
    jd, je = ctx.int("mine", 0), ctx.int("my entry point", 0)
    ctx.assume(conj(jd < nd, je < ne))
    group = ctx.pick(("aiomisc", "aiomisc.plugins"), "group")

    class EP:
        def __init__(self, group):
            self.group, self.name, self.seen, self.evals = group, "name", False, 0

    class G:
        seen = 0        # how often mine was found
        fresh = None
    mine = EP(ctx.pick((group, group + ".other", "other"), "my group"))
    want = 1 if mine.group == group else 0

    def other():
        G.fresh = EP(ctx.pick((group, "other"), "another group"))
        return G.fresh

    def policy(own, j):
        base = []

        def inv(c):
            if not base:
                base.append(G.seen)
            r = [(G.seen == base[0] + (ite(c.iter_index > j, want, 0) if j is not None else 0),
                  "each entry point of the group is found once")]
            x = G.fresh
            if own and x is not None:
                x.evals += 1
            if own and x is not None and x.evals > 2:       # after the iteration, not before it
                r.append((x.seen == (x.group == group), "each entry point of the group is found once"))
            return r

        def havoc(c):
            G.seen = c.int("seen", 0)
        return Cut(havoc, inv)

    class Dist:
        def __init__(self, my):
            self.my = my
            self.n = ne if my else ctx.int("other entry points", 0)

        @property
        def entry_points(self):
            j = je if self.my else None
            s = SymSeq(self.n, lambda i: mine, "entry points", j, other, policy=policy(True, j))
            s.policy_for = lambda j: policy(True, j)
            return s

    class D:
        @staticmethod
        def discover():
            return SymSeq(nd, lambda i: Dist(True), "distributions", jd, lambda: Dist(False), policy=policy(False, jd))
    mod.Distribution = D
    for x in mod.entry_pont_iterator(group):
        ctx.check(x is mine or x is G.fresh, "nothing else is found", x)
        ctx.check(x.group == group, "only entry points of the group are found", x)
        ctx.check(not x.seen, "each entry point of the group is found once")
        x.seen = True
        if x is mine:
            G.seen = G.seen + 1
    ctx.check(G.seen == want, "each entry point of the group is found once", G.seen)
    ctx.cover("mine" if want else "another group")


def found(ctx, mod=None):
    """a few distributions"""
    mod = mod or load("aiomisc.compat", transform=ctx.sym)
    need(mod, "entry_pont_iterator", "Distribution")

    class EP:
        def __init__(self, group, name):
            self.group, self.name = group, name
    dists = []
    for d in range(ctx.choose(3, "distributions")):
        dists.append([EP(ctx.pick(("aiomisc", "aiomisc.plugins", "other"), "group"), "e%d%d" % (d, i))
                      for i in range(ctx.choose(3, "entry points"))])

    class Dist:
        def __init__(self, eps):
            self.entry_points = tuple(eps)

    class D:
        @staticmethod
        def discover():
            return iter([Dist(x) for x in dists])
    mod.Distribution = D
    for g in ("aiomisc", "aiomisc.plugins"):
        want = [e for x in dists for e in x if e.group == g]
        got = list(mod.entry_pont_iterator(g))
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                  "each entry point of the group is found once", (g, len(got), len(want)))
    ctx.cover("found")


class Row:
    """another plugin"""


def listing(ctx):
    """python -m aiomisc.plugins, any number of plugins"""
    if not ctx.sym:
        return listed(ctx)
    with NoRun(AIOMISC_NO_PLUGINS="1"):
        mod = load("aiomisc.plugins.__main__", transform=ctx.sym)
    need(mod, "main", "parser", "plugins", "basic_config")
    n, j = ctx.int("plugins", 0), ctx.int("mine", 0)
    ctx.assume(j < n)
    quiet = ctx.pick((None, "-n", "--no-output"), "no output")

    class G:
        mine = 0        # how often my name was printed
        row = None
    want = 0 if quiet else 1
    val = Thing("plugin")

    def other():
        G.row = Row()
        G.row.name, G.row.lines, G.row.evals = "other", 0, 0
        return G.row.name

    def policy(j):
        base = []

        def havoc(c):
            G.mine = c.int("lines", 0)

        def inv(c):
            if not base:
                base.append(G.mine)
            r = [(G.mine == base[0] + ite(c.iter_index > j, want, 0), "each name is printed once")]
            if G.row is not None:
                G.row.evals += 1
                if G.row.evals > 2:     # after the iteration
                    r.append((G.row.lines == want, "each name is printed once"))
            return r
        return Cut(havoc, inv)

    class All(View):
        def seq(self, elem):
            s = SymSeq(n, lambda i: elem("mine", val), "the names", j, lambda: elem(other(), Thing("other")),
                       policy=policy(j))
            s.again = lambda j2: SymSeq(n, lambda i: elem("mine", val), "sorted names", j2,
                                        lambda: elem(other(), Thing("other")), policy=policy(j2))
            return s

    def by_name(it, **kw):
        if isinstance(it, All):
            it = it.keys()
        if not isinstance(it, SymSeq) or kw:
            raise core.Unsupported("sorted")
        j2 = ctx.int("place", 0)
        ctx.assume(j2 < n)
        s = it.again(j2)
        G.sorted = True
        return s

    def line(*a, **kw):
        if kw or len(a) != 1:
            raise core.Unsupported("print")
        ctx.check(getattr(G, "sorted", False), "the names of the plugins are printed, sorted")
        ctx.check(a[0] in ("mine", "other"), "only names are printed", a)
        if a[0] == "mine":
            G.mine = G.mine + 1
        else:
            G.row.lines += 1
    mod.plugins = All(ctx, val, n, lambda: Thing("other"), None)
    mod.sorted, mod.print = by_name, line
    mod.logging = NS(logging, info=lambda *a, **kw: None)
    mod.basic_config = lambda **kw: None
    old = sys.argv
    sys.argv = ["prog"] + ([quiet] if quiet else [])
    try:
        mod.main()
    finally:
        sys.argv = old
    ctx.check(G.mine == want, "each name is printed once")
    ctx.cover("quiet" if quiet else "listed")


def listed(ctx):
    """python -m aiomisc.plugins, a few plugins"""
    with NoRun(AIOMISC_NO_PLUGINS="1"):
        mod = load("aiomisc.plugins.__main__", transform=ctx.sym)
    need(mod, "main", "parser", "plugins", "basic_config")
    names = ("b", "a", "c")[:ctx.choose(4, "plugins")]
    mod.plugins = {n: (Thing("plugin") if i else types.ModuleType("m")) for i, n in enumerate(names)}
    mod.logging = NS(logging, info=lambda *a, **kw: None)
    conf = []
    mod.basic_config = lambda **kw: conf.append(kw)
    args, level = [], "info"
    k = ctx.pick((None, "-q", "--silent", "-l"), "quiet")
    if k == "-l":
        args += ["-l", "debug"]
        level = "debug"
    elif k:
        args.append(k)
        level = "critical"
    quiet = ctx.pick((None, "-n", "--no-output"), "no output")
    if quiet:
        args.append(quiet)
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["prog"] + args
    try:
        with contextlib.redirect_stdout(out):
            mod.main()
    finally:
        sys.argv = old
    ctx.check(out.getvalue().split("\n") == ([] if quiet else sorted(names)) + [""], "the names of the plugins are printed, sorted",
              out.getvalue())
    ctx.check(len(conf) == 1, "logging is configured once")
    if k:
        ctx.check(conf[0].get("level") == level, "logging is configured as the arguments say", conf)
    ctx.cover("listed")


HARNESSES = [("plugins", guard(plugins)), ("few", guard(few)), ("discover", guard(discover)), ("found", guard(found)), ("listing", guard(listing)), ("listed", guard(listed))]


# ------------------------------------------------------------- executions

COUNT = itertools.count()


def fuzz_plugins(rng):
    """distributions in a scratch directory"""
    import importlib
    with NoRun(AIOMISC_NO_PLUGINS="1"):
        plm = importlib.import_module("aiomisc.plugins")
    d = tempfile.mkdtemp(prefix="c34-")
    log = sys.modules.setdefault("c34_log", types.ModuleType("c34_log"))
    log.log = []
    mine = []
    try:
        k = next(COUNT)
        n = rng.randint(0, 5)
        good, bad = {}, []
        for i in range(n):
            m = "c34_%d_%d_%d" % (os.getpid(), k, i)
            mine.append(m)
            kind = rng.choice(("ok", "ok", "ok", "load", "missing", "setup" if rng.random() < 0.3 else "ok"))
            group = rng.choice(("aiomisc", "aiomisc.plugins", "aiomisc.other"))
            pkg = os.path.join(d, m + "-1.0.dist-info")
            os.mkdir(pkg)
            with open(os.path.join(pkg, "METADATA"), "w") as f:
                f.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n" % m)
            with open(os.path.join(pkg, "entry_points.txt"), "w") as f:
                f.write("[%s]\n%s = %s\n" % (group, m, m))
            if kind != "missing":
                with open(os.path.join(d, m + ".py"), "w") as f:
                    f.write("import c34_log\nc34_log.log.append(('load', %r))\n" % m)
                    if kind == "load":
                        f.write("raise RuntimeError('load')\n")
                    f.write("def setup():\n    c34_log.log.append(('setup', %r))\n" % m)
                    if kind == "setup":
                        f.write("    raise RuntimeError(%r)\n" % m)
            if group != "aiomisc.other":
                good[m] = kind
        sys.path.insert(0, d)
        importlib.invalidate_caches()
        dis = logging.root.manager.disable
        logging.disable(50)
        try:
            with NoRun():
                try:
                    got, e = plm.setup_plugins(), None
                except RuntimeError as x:
                    got, e = None, x
        finally:
            logging.disable(dis)
            sys.path.remove(d)
        loads = [x[1] for x in log.log if x[0] == "load"]
        sets = [x[1] for x in log.log if x[0] == "setup"]
        assert sorted(loads) == sorted(m for m, q in good.items() if q != "missing"), "loaded %r" % loads
        assert len(set(sets)) == len(sets) and set(sets) <= set(loads), "set up %r" % sets
        up = sorted(m for m, q in good.items() if q in ("ok", "setup"))
        if "setup" in good.values():
            assert e is not None and good.get(str(e)) == "setup", "raised %r" % (e,)
        else:
            assert e is None, "raised %r" % (e,)
            assert sorted(sets) == up, "set up %r" % sets
            assert sorted(x for x in got if x.startswith("c34_")) == up, "plugins %r" % got
            for m in up:
                assert got[m] is sys.modules[m], "another plugin"
    finally:
        for m in mine:
            sys.modules.pop(m, None)
        shutil.rmtree(d)


FUZZ = [("plugins", fuzz_plugins)]
FUZZ_S = 3
