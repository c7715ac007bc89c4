"""pyvc.load - mechanical extraction of the verified text.

``load("aiomisc.backoff")`` reads the module's source from /repo on every run,
rewrites its AST with *semantics preserving* hooks (below), compiles it and
executes it as a private copy of the module.  What is rewritten:

* every ``while``/``for`` inside a function gets a call at the loop head, so a
  loop contract can cut the loop (havoc + invariant) in symbolic mode;
* list/generator comprehensions with one generator and calls with ``*args``
  are routed through helpers, so that symbolic sequences can be used;
* ``len``, ``int``, ``float``, ``isinstance``, ``range``, ``bool`` are shadowed
  by versions which also accept symbolic values.

Nothing is dropped: the function bodies are the ones in /repo.  In concrete
mode none of the hooks does anything.
"""
import ast
import builtins
import collections
import importlib
import os
import sys
import types

import z3

from . import core
from .core import (
    PathEnd, Restart, SymBool, SymInt, SymNum, SymReal, Unsupported, boolean,
    conj, num, zbool,
)

REPO = os.environ.get("VERIF_REPO", "/repo")
UNROLL = 40


class _Assigned(ast.NodeVisitor):
    """names (re)bound in a statement list, not entering nested scopes"""

    def __init__(self):
        self.names = set()

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.names.add(node.id)

    def visit_FunctionDef(self, node):
        self.names.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        # bound then deleted at the end of the handler
        for n in node.body:
            self.visit(n)

    def visit_Import(self, node):
        for a in node.names:
            self.names.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return sorted(n for n in v.names if not n.startswith("vc__"))


MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "add", "discard",
    "update", "setdefault", "popitem", "popleft", "appendleft", "sort",
    "reverse", "difference_update", "intersection_update",
}


def mutated(stmts):
    """names whose object is changed in place by a statement list"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in MUTATORS:
                out.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) \
                    and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.value.id)
    return sorted(x for x in out if not x.startswith("vc__"))


def nonlocal_writes(stmts):
    """names a nested function declares nonlocal: they may change whenever
    something is called"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Nonlocal):
                        out.update(m.names)
    return out


class _Declared(ast.NodeVisitor):
    """global and nonlocal statements of one function (without nested ones)"""

    def __init__(self):
        self.gl, self.nl = set(), set()

    def visit_Global(self, node):
        self.gl.update(node.names)

    def visit_Nonlocal(self, node):
        self.nl.update(node.names)

    def visit_FunctionDef(self, node):
        pass

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef


class Names:
    """what the names of a function are"""

    def __init__(self, node):
        d = _Declared()
        for s in node.body:
            d.visit(s)
        self.gl, self.nl = d.gl, d.nl
        a = node.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        own |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.own = (own | set(assigned(node.body))) - d.gl - d.nl
        self.inner = nonlocal_writes(node.body) & self.own


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.counts = {}
        self.infunc = 0
        self.tmp = 0
        self.functions = []
        self.cls = []
        self.known = []

    def _func(self, node):
        qual = ".".join([n for n in self.scope] + [node.name])
        self.functions.append((qual, node.lineno, node.end_lineno))
        self.scope.append(node.name)
        self.infunc += 1
        self.known.append(Names(node))
        node.body = [self._flat(self.visit(s)) for s in node.body]
        node.body = sum(node.body, [])
        self.known.pop()
        if node.args.vararg:
            n = node.args.vararg.arg
            node.body.insert(0, ast.copy_location(ast.Assign(
                [ast.Name(n, ast.Store())],
                self._call("vc__args", ast.Name(n, ast.Load()))), node))
        self.infunc -= 1
        self.scope.pop()
        return node

    @staticmethod
    def _flat(x):
        if x is None:
            return []
        return x if isinstance(x, list) else [x]

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        saved, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = saved
        self.scope.pop()
        return node

    def _key(self, kind):
        q = ".".join(self.scope)
        n = self.counts.get(q, 0)
        self.counts[q] = n + 1
        return (q, n, kind)

    def _rebinding(self, var, names):
        out = []
        for n in names:
            out.append(ast.If(
                test=ast.Compare(
                    left=ast.Constant(n), ops=[ast.In()],
                    comparators=[ast.Name(var, ast.Load())],
                ),
                body=[ast.Assign(
                    targets=[ast.Name(n, ast.Store())],
                    value=ast.Subscript(
                        ast.Name(var, ast.Load()), ast.Constant(n), ast.Load(),
                    ),
                )],
                orelse=[],
            ))
        return out

    def _call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def _meth(self, var, name):
        return ast.Call(
            ast.Attribute(ast.Name(var, ast.Load()), name, ast.Load()),
            [self._call("locals")], [],
        )

    def _split(self, stmts, names):
        """-> names a loop may change, containers it changes in place, and an
        expression for what it changes elsewhere (globals, the variables of
        outer functions): no loop contract covers these"""
        k = self.known[-1]
        mut = mutated(stmts)
        if any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.For, ast.AsyncFor, ast.With,
                              ast.AsyncWith)) for s in stmts for n in ast.walk(s)):
            names = set(names) | k.inner
        mine = [n for n in mut if n in k.own]
        other = [n for n in mut if n not in k.own]
        gl = sorted(n for n in names if n in k.gl)
        names = sorted(set(names) - set(gl))
        out = ast.Lambda(
            ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            ast.Dict([ast.Constant(n) for n in other], [ast.Name(n, ast.Load()) for n in other]))
        return names, mine, ast.Tuple([ast.Constant(tuple(gl)), out], ast.Load())

    def visit_While(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        key = self._key("while")
        stmts = node.body + [ast.Expr(node.test)]
        names, mut, out = self._split(stmts, assigned(stmts))
        self.generic_visit(node)
        self.tmp += 1
        c, h = "vc__c%d" % self.tmp, "vc__h%d" % self.tmp
        for s in node.orelse:
            for n in ast.walk(s):
                if isinstance(n, (ast.Break, ast.Continue)):
                    return node
        new = [
            ast.Assign(
                [ast.Name(c, ast.Store())],
                self._call(
                    "vc__while", ast.Constant(key), ast.Constant(tuple(names)),
                    ast.Constant(tuple(mut)), out,
                ),
            ),
            ast.While(
                test=ast.Constant(True),
                body=[
                    ast.Assign([ast.Name(h, ast.Store())], self._meth(c, "top")),
                    *self._rebinding(h, sorted({*names, *mut})),
                    ast.If(
                        test=ast.UnaryOp(ast.Not(), node.test),
                        body=[*node.orelse, ast.Break()], orelse=[],
                    ),
                    *node.body,
                ],
                orelse=[],
            ),
        ]
        return [ast.copy_location(n, node) for n in new]

    def visit_For(self, node):
        if not self.infunc:
            return self.generic_visit(node)
        key = self._key("for")
        names, mut, out = self._split(node.body, assigned(node.body))
        self.generic_visit(node)
        self.tmp += 1
        c, h = "vc__c%d" % self.tmp, "vc__h%d" % self.tmp
        new = [
            ast.Assign(
                [ast.Name(c, ast.Store())],
                self._call(
                    "vc__for", ast.Constant(key), ast.Constant(tuple(names)),
                    ast.Constant(tuple(mut)), out, node.iter,
                ),
            ),
            ast.For(
                target=node.target, iter=ast.Name(c, ast.Load()),
                body=[
                    ast.Assign([ast.Name(h, ast.Store())], self._meth(c, "top")),
                    *self._rebinding(h, sorted({*names, *mut})),
                    *node.body,
                ],
                orelse=node.orelse,
            ),
            ast.Assign([ast.Name(h, ast.Store())], self._meth(c, "post")),
            *self._rebinding(h, sorted({*names, *mut})),
        ]
        return [ast.copy_location(n, node) for n in new]

    @staticmethod
    def _plain(node):
        for n in ast.walk(node):
            if isinstance(n, (
                ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr,
                ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp,
            )):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ("locals", "super"):
                return False
        return True

    def _comp(self, node, kind):
        self.generic_visit(node)
        if not self.infunc or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or not all(
                self._plain(x) for x in [node.elt] + g.ifs):
            return node
        if isinstance(g.target, ast.Name):
            names, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(
                isinstance(e, ast.Name) for e in g.target.elts):
            names, star = [e.id for e in g.target.elts], True
        else:
            return node
        if len(set(names)) != len(names):
            return node

        def lam(body):
            return ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(n) for n in names],
                    kwonlyargs=[], kw_defaults=[], defaults=[],
                ), body=body,
            )

        cond = ast.Constant(None)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(test)
        return ast.copy_location(self._call(
            "vc__comp", ast.Constant(kind), ast.Constant(star), g.iter,
            lam(node.elt), cond,
        ), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.infunc or not any(
                isinstance(a, ast.Starred) for a in node.args):
            return node
        parts = []
        for a in node.args:
            st = isinstance(a, ast.Starred)
            parts.append(ast.Tuple(
                [ast.Constant(st), a.value if st else a], ast.Load(),
            ))
        return ast.copy_location(ast.Call(
            ast.Name("vc__call", ast.Load()),
            [node.func, ast.Tuple(parts, ast.Load())], node.keywords,
        ), node)


# --------------------------------------------------------------------------
# symbolic sequences
# --------------------------------------------------------------------------

class SymSeq:
    """A sequence of unbounded symbolic length.  ``elem(i)`` gives the element
    at a (symbolic) index; only indices which are provably the same term give
    the same object."""

    policy = None       # the contract of loops over this sequence, wherever they are
    policy_for = None   # fn(witness) -> that contract for a part of the sequence

    def __init__(self, length, elem, name="seq", witness=None, generic=None, policy=None):
        self.n = length
        if policy is not None:
            self.policy = policy
        self._elem = elem
        self.name = name
        self.witness = witness      # index term of interest (or None)
        self.generic = generic      # fn() -> an arbitrary other element

    def __vc_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __iter__(self):
        raise Unsupported("native iteration over the symbolic sequence %s"
                          % self.name)

    def __len__(self):
        raise Unsupported("native len() of the symbolic sequence")

    def at(self, i):
        return self._elem(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        n = self.n
        if i < 0:
            i = n + i
        if i < 0 or i >= n:
            raise IndexError("index out of range")
        return self.at(i)

    def map(self, fn, name=None):
        g = self.generic
        return SymSeq(
            self.n, _memo(lambda i: fn(self.at(i))), name or self.name,
            self.witness, None if g is None else (lambda: fn(g())),
        )


def _memo(fn):
    cache = {}

    def get(i):
        k = str(i)
        if k not in cache:
            cache[k] = fn(i)
        return cache[k]
    return get


def sym_filter(it, cond):
    """the elements of a symbolic sequence for which the condition holds: some
    of them, the witness exactly when its condition holds (the conditions have
    no side effects)"""
    ctx = core.CURRENT
    if ctx is None or it.generic is None:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    n, w = it.n, it.witness
    j, rest = None, n
    if w is not None and bool(conj(w >= 0, w < n)):
        if cond(it.at(w)):
            j = ctx.int("place", 0)
        else:
            rest = n - 1
    m = ctx.int("kept", 0)
    ctx.assume(m <= rest)
    if j is not None:
        ctx.assume(j < m)

    def other():
        x = it.generic()
        ctx.assume(cond(x))
        return x

    def elem(i):
        if j is not None and bool(i == j):
            return it.at(w)
        return other()
    pol = it.policy
    if pol is not None:
        if it.policy_for is None:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        pol = it.policy_for(j)
    return SymSeq(m, _memo(elem), it.name, j, other, policy=pol)


def sym_zip(*seqs):
    first = [s for s in seqs if isinstance(s, SymSeq)][0]
    n = None
    for s in seqs:
        m = s.n if isinstance(s, SymSeq) else len(s)
        n = m if n is None else core.smin(n, m)

    def elem(i):
        return tuple(s.at(i) if isinstance(s, SymSeq) else s[i] for s in seqs)

    gen = None
    if all(isinstance(s, SymSeq) and s.generic for s in seqs):
        def gen():
            return tuple(s.generic() for s in seqs)
    w = [s.witness for s in seqs if isinstance(s, SymSeq)
         and s.witness is not None]
    return SymSeq(n, elem, "zip", w[0] if w else None, gen)


# --------------------------------------------------------------------------
# run time hooks
# --------------------------------------------------------------------------

def vc_len(x):
    f = getattr(x, "__vc_len__", None)
    if f is not None:
        return f()
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (int, SymInt))


def vc_isinstance(x, t):
    if builtins.isinstance(x, SymNum):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        for k in ts:
            if k is vc_int and builtins.isinstance(x, SymInt):
                return True
            if k is vc_float and builtins.isinstance(x, SymReal):
                return True
            if k in (int, ) and builtins.isinstance(x, SymInt):
                return True
            if k in (float,) and builtins.isinstance(x, SymReal):
                return True
        return False
    if builtins.isinstance(t, tuple):
        t = tuple(_unshadow(k) for k in t)
    else:
        t = _unshadow(t)
    return builtins.isinstance(x, t)


def _unshadow(k):
    return {id(vc_int): int, id(vc_float): float}.get(id(k), k)


def vc_int(x=0, *a):
    if isinstance(x, SymNum):
        return x.to_int()
    if isinstance(x, SymBool):
        return num(core._lift(x))
    return int(x, *a)


def vc_float(x=0.0):
    if isinstance(x, SymNum):
        return x.to_real()
    if isinstance(x, core.Fraction):
        return x
    return float(x)


class SymRange:
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s


def vc_range(*a):
    if not any(isinstance(x, SymNum) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (
        (a[0], a[1], 1) if len(a) == 2 else a)
    if st == 1:
        n = core.smax(hi - lo, 0)
        return SymSeq(n, lambda i: lo + i, "range")
    if st == -1:
        n = core.smax(lo - hi, 0)
        return SymSeq(n, lambda i: lo - i, "range")
    raise Unsupported("symbolic range step")


def vc_zip(*a, **kw):
    if any(isinstance(x, SymSeq) for x in a):
        return sym_zip(*a)
    return zip(*a, **kw)


def vc_enumerate(a, start=0):
    if isinstance(a, SymSeq):
        g = a.generic
        return SymSeq(
            a.n, lambda i: (i + start, a.at(i)), "enumerate", a.witness,
            None,
        )
    return enumerate(a, start)


def vc_list(a=()):
    f = getattr(a, "__vc_list__", None)
    if f is not None:
        return f()
    if isinstance(a, SymSeq):
        return a
    return list(a)


def vc_tuple(a=()):
    f = getattr(a, "__vc_tuple__", None)
    if f is not None:
        return f()
    if isinstance(a, SymSeq):
        return a
    return tuple(a)


def vc_comp(kind, star, it, elt, cond):
    if isinstance(it, SymSeq):
        if cond is not None:
            it = sym_filter(it, (lambda t: cond(*t)) if star else cond)
        return it.map((lambda t: elt(*t)) if star else elt)
    if star:
        g = (elt(*t) for t in it if cond is None or cond(*t))
    else:
        g = (elt(t) for t in it if cond is None or cond(t))
    return list(g) if kind == "list" else g


def vc_call(f, parts, **kw):
    if any(st and isinstance(v, SymSeq) for st, v in parts):
        h = getattr(f, "__vc_symparts__", None)
        if h is not None:
            return h(parts, **kw)
        h = getattr(f, "__vc_symcall__", None)
        if len(parts) != 1:
            raise Unsupported("mixed symbolic argument list")
        if h is not None:
            return h(parts[0][1], **kw)
        fn = getattr(f, "__func__", f)
        code = getattr(fn, "__code__", None)
        if code is None or not code.co_flags & 4 or \
                "vc__args" not in fn.__globals__:
            raise Unsupported("call with a symbolic number of arguments")
        return f(VarArgs(parts[0][1]), **kw)
    args = []
    for st, v in parts:
        if st:
            args.extend(v)
        else:
            args.append(v)
    return f(*args, **kw)


class VarArgs:
    """a symbolic argument list on its way into a ``*args`` parameter"""

    def __init__(self, seq):
        self.seq = seq


def vc_args(t):
    if len(t) == 1 and builtins.isinstance(t[0], VarArgs):
        return t[0].seq
    return t


def need(obj, *names):
    """the representation a contract talks about; if the code changed it the
    contract has to be restated: undecided, never an alarm"""
    for n in names:
        if not hasattr(obj, n):
            raise Unsupported("%s has no %s: the representation changed" % (
                getattr(obj, "__name__", type(obj).__name__), n))


class Cut:
    """A loop contract.

    havoc(ctx)   give every heap/ghost location the loop may change a fresh
                 value
    inv(ctx)     -> [(condition, name)]: the loop invariant
    ghosts(ctx)  -> {name: value} ghost values candidate invariants over
                 locals may refer to
    obj(ctx, name, entry_value) -> arbitrary value of a non numeric local
    frame        objects whose attributes must not change in the loop
    """

    def __init__(self, havoc=None, inv=None, ghosts=None, obj=None,
                 frame=(), label=""):
        self.havoc = havoc or (lambda ctx: None)
        self.inv = inv or (lambda ctx: [])
        self.ghosts = ghosts or (lambda ctx: {})
        self.obj = obj
        self.frame = frame
        self.label = label


def _policy(key):
    ctx = core.CURRENT
    if ctx is None or not ctx.sym or getattr(ctx, "no_cut", False):
        return None
    q, n, kind = key
    L = ctx.loops
    for k in ((q, n), (q, kind), (q, "*"), (kind,), "*"):
        if k in L:
            return L[k]
    return None


CONTAINERS = (list, dict, set, bytearray, collections.deque)


def _size(v):
    return v.vc_num if hasattr(v, "vc_num") else builtins.len(v)


def _isnum(v):
    return isinstance(v, (int, float, SymNum)) and not isinstance(v, bool)


class _Loop:
    def __init__(self, key, names, mut=(), out=((), dict)):
        self.key = key
        self.out = out
        self.names = names
        self.mut = mut
        self.n = 0
        self.pol = _policy(key)
        self.label = "%s[loop %d]" % (key[0], key[1])

    def _tick(self):
        ctx = core.CURRENT
        self.n += 1
        if ctx is None:
            return
        if ctx.dead:
            raise PathEnd
        if ctx.sym and self.n > 4 and getattr(ctx, "no_cut", False):
            ctx.stop()
        if ctx.sym and self.n > UNROLL:
            raise Unsupported("loop without contract needs more than %d "
                              "iterations: %s" % (UNROLL, self.label))
        if self.n > 20000:
            raise PathEnd

    # -- Houdini machinery
    def _cand(self, ctx, c):
        return ctx.x.cands.setdefault((self.key,) + c, True)

    def _drop(self, ctx, c):
        ctx.x.cands[(self.key,) + c] = False
        ctx.dead = True
        raise Restart

    def _havoc(self, ctx, loc):
        if self.out[0]:
            raise Unsupported("%s assigns the globals %s" % (self.label, self.out[0]))
        for n, v in self.out[1]().items():
            if builtins.isinstance(v, CONTAINERS):
                raise Unsupported("%s fills the container %r of another scope" % (self.label, n))
        self.entry = {n: loc[n] for n in self.names if n in loc}
        # containers changed in place: their content after any number of
        # iterations is not their content now
        self.inplace = {n: loc[n] for n in self.mut if n in loc and (
            builtins.isinstance(loc[n], CONTAINERS) or hasattr(loc[n], "vc_num"))}
        ctx.loc = loc
        for cond, name in self.pol.inv(ctx):
            ctx.check(cond, "%s: invariant on entry: %s" % (
                self.pol.label or self.label, name))
        self.g0 = dict(self.pol.ghosts(ctx))
        if hasattr(ctx, "iter_next"):
            ctx.iter_index = ctx.iter_next
        self.pol.havoc(ctx)
        self.g1 = dict(self.pol.ghosts(ctx))
        ctx.abstract += 1
        new = self._fresh_locals(ctx, self.g1)
        ctx.loc = dict(loc, **new)
        for cond, name in self.pol.inv(ctx):
            ctx.assume(cond)
        ctx.feasible()
        self.snap = [
            (o, dict(vars(o)) if hasattr(o, "__dict__") else {})
            for o in self.pol.frame
        ]
        return new

    def _fresh_locals(self, ctx, g):
        new = {}
        for n, v0 in self.inplace.items():
            v = None if self.pol.obj is None else self.pol.obj(ctx, n, v0)
            if v is v0 or v is None:
                raise Unsupported("%s fills the container %r" % (self.label, n))
            new[n] = v
            self._num_cands(ctx, n, v.vc_num, _size(v0), g)
        for n, v0 in self.entry.items():
            if n in new:
                continue
            if self._cand(ctx, (n, "same")):
                new[n] = v0
                continue
            if isinstance(v0, (bool, SymBool)):
                new[n] = ctx.bool("loop_" + n)
            elif _isnum(v0):
                v = (ctx.int if isinstance(v0, (int, SymInt)) else ctx.real)(
                    "loop_" + n)
                self._num_cands(ctx, n, v, v0, g)
                new[n] = v
            else:
                done = False
                for gn, gv in g.items():
                    if not _isnum(gv) and v0 is self.g0[gn] and \
                            self._cand(ctx, (n, "is", gn)):
                        new[n] = gv
                        done = True
                        break
                if not done:
                    if self.pol.obj is None:
                        raise Unsupported("loop changes local %r of %s" % (
                            n, self.label))
                    new[n] = self.pol.obj(ctx, n, v0)
        return new

    def _num_cands(self, ctx, n, v, v0, g):
        if self._cand(ctx, (n, "ge")):
            ctx.assume(v >= v0)
        for gn, gv in g.items():
            if _isnum(gv) and self._cand(ctx, (n, "delta", gn)):
                ctx.assume(v - gv == v0 - self.g0[gn])

    def _num_keep(self, ctx, n, v, v0, g):
        if self._cand(ctx, (n, "ge")) and not _valid(ctx, v >= v0):
            self._drop(ctx, (n, "ge"))
        for gn, gv in g.items():
            if _isnum(gv) and self._cand(ctx, (n, "delta", gn)) and \
                    not _valid(ctx, v - gv == v0 - self.g0[gn]):
                self._drop(ctx, (n, "delta", gn))

    def _preserve(self, ctx, loc):
        g = dict(self.pol.ghosts(ctx))
        ctx.loc = loc
        for n, v0 in self.inplace.items():
            v = loc.get(n)
            if not hasattr(v, "vc_num"):
                raise Unsupported("container %r is replaced" % n)
            self._num_keep(ctx, n, v.vc_num, _size(v0), g)
        for n, v0 in self.entry.items():
            if n in self.inplace:
                continue
            v = loc.get(n)
            if self._cand(ctx, (n, "same")):
                if v is not v0 and not (_isnum(v) and _isnum(v0) and
                                        _valid(ctx, v == v0)):
                    self._drop(ctx, (n, "same"))
                continue
            if _isnum(v0) and _isnum(v):
                self._num_keep(ctx, n, v, v0, g)
            elif isinstance(v0, (bool, SymBool)) and isinstance(
                    v, (bool, SymBool)):
                pass
            elif not _isnum(v0):
                for gn, gv in g.items():
                    if not _isnum(self.g0[gn]) and v0 is self.g0[gn] and \
                            self._cand(ctx, (n, "is", gn)):
                        if v is not gv:
                            self._drop(ctx, (n, "is", gn))
                        break
            else:
                raise Unsupported("local %r changes type in %s" % (
                    n, self.label))
        for cond, name in self.pol.inv(ctx):
            ctx.check(cond, "%s: invariant preserved: %s" % (
                self.pol.label or self.label, name))
        for o, before in self.snap:
            if hasattr(o, "__dict__"):
                for k, v in vars(o).items():
                    if k not in before or before[k] is not v:
                        raise Unsupported(
                            "loop %s changes %s.%s outside of its frame" % (
                                self.label, type(o).__name__, k))

    def post(self, loc):
        return {}


def _valid(ctx, c):
    if isinstance(c, bool):
        return c
    return ctx._sat(core.t_not(zbool(c))) == z3.unsat


class WhileLoop(_Loop):
    def __init__(self, key, names, mut=(), out=((), dict)):
        super().__init__(key, names, mut, out)
        self.started = False

    def top(self, loc):
        ctx = core.CURRENT
        self._tick()
        if self.pol is None:
            return {}
        if not self.started:
            self.started = True
            return self._havoc(ctx, loc)
        self._preserve(ctx, loc)
        ctx.stop()


class ForLoop(_Loop):
    """Cut of a loop over a symbolic sequence s.  Paths:
    generic  an arbitrary iteration (not the witness) from an arbitrary state
             satisfying the invariant; the invariant must hold after it; also
             gives every exit through ``break``/``return`` at that iteration
    witness  arbitrary prefix (havoc), the witness iteration, arbitrary
             suffix (havoc), loop exit
    summary  no witness in s: havoc, loop exit
    ``ctx.iter_index`` is the number of completed iterations at each point
    where the contract's havoc/inv are evaluated."""

    def __init__(self, key, names, mut, out, it):
        super().__init__(key, names, mut, out)
        self.it = it
        self.sym = isinstance(it, SymSeq)
        if self.sym and it.policy is not None and core.CURRENT is not None and core.CURRENT.sym and \
                not getattr(core.CURRENT, "no_cut", False):
            self.pol = it.policy
        if self.sym and self.pol is None:
            self.pol = Cut()

    def __iter__(self):
        return self._symiter() if self.sym else self._plain()

    def _plain(self):
        for x in self.it:
            yield x

    def _symiter(self):
        ctx = core.CURRENT
        s = self.it
        self.stage = "empty"
        if getattr(ctx, "no_cut", False):
            # bounded exploration: the iterations one by one
            i = 0
            while s.n > i:
                if i > 3:
                    ctx.stop()
                ctx.iter_index = i
                if s.generic and not (s.witness is not None and s.witness == i):
                    yield s.generic()
                else:
                    yield s.at(i)
                i += 1
            return
        if not (s.n > 0):
            return
        j = s.witness
        kind = ctx.choose(2 if j is None else 3, "loop-phase")
        if kind == 0:
            i = ctx.int("iter", 0)
            ctx.assume(i < s.n)
            if j is not None:
                ctx.assume(negate_eq(i, j))
            ctx.feasible()
            self.stage, self.index = "generic", i
            yield (s.generic() if s.generic else s.at(i))
            ctx.iter_index = i + 1
            self._preserve(ctx, dict(sys._getframe(1).f_locals))
            ctx.stop()
        elif kind == 1:
            if j is None:
                self.stage, self.index = "summary", s.n
                return
            ctx.assume(conj(j >= 0, j < s.n))
            ctx.feasible()
            self.stage, self.index = "witness", j
            yield s.at(j)
            ctx.iter_index = j + 1
            self._preserve(ctx, dict(sys._getframe(1).f_locals))
            self.stage, self.index = "after", s.n
        else:
            ctx.assume(core.disj(j < 0, j >= s.n))
            ctx.feasible()
            self.stage, self.index = "summary", s.n

    def top(self, loc):
        if not self.sym or getattr(core.CURRENT, "no_cut", False):
            self._tick()
            return {}
        return self._havoc_at(core.CURRENT, loc, 0)

    def _havoc_at(self, ctx, loc, start):
        ctx.iter_index = start
        ctx.iter_next = self.index
        return self._havoc(ctx, loc)

    def post(self, loc):
        if not self.sym or getattr(core.CURRENT, "no_cut", False) or self.stage in ("empty", "generic", "witness"):
            return {}       # no iteration at all, or left through break
        ctx = core.CURRENT
        if self.stage == "summary":
            return self._havoc_at(ctx, loc, 0)
        return self._havoc_at(ctx, loc, self.it.witness + 1)


def negate_eq(a, b):
    return core.negate(a == b)


SHADOW = {
    "len": vc_len, "int": vc_int, "float": vc_float,
    "isinstance": vc_isinstance, "range": vc_range, "zip": vc_zip,
    "enumerate": vc_enumerate, "list": vc_list, "tuple": vc_tuple,
}

HOOKS = {
    "vc__while": WhileLoop,
    "vc__for": ForLoop,
    "vc__comp": vc_comp,
    "vc__call": vc_call,
    "vc__args": vc_args,
}

_cache = {}


def source_path(modname):
    p = os.path.join(REPO, *modname.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py")
    return p + ".py"


def load(modname, overrides=None, transform=True, shadow=None, fresh=False, imports=()):
    """A private copy of the real module, hooks installed.  The copy is reused
    between paths (its namespace is restored) unless ``fresh``.  ``imports``
    are loaded modules it imports instead of the real ones."""
    path = source_path(modname)
    key = (modname, transform)
    if key not in _cache:
        src = open(path).read()
        tree = ast.parse(src, path)
        fns = []
        if transform:
            t = Transform(modname)
            tree = t.visit(tree)
            ast.fix_missing_locations(tree)
            fns = t.functions
        _cache[key] = (compile(tree, path, "exec"), fns)
    code, fns = _cache[key]
    mod = None if fresh else _mods.get(key)
    if mod is None:
        mod = types.ModuleType(modname)
        mod.__file__ = path
        mod.__package__ = modname if path.endswith("__init__.py") else \
            modname.rpartition(".")[0]
        if transform:
            mod.__dict__.update(HOOKS)
        importlib.import_module(modname)
        # (dataclasses look their module up)
        swap = dict({m.__name__: m for m in imports}, **{modname: mod})
        saved = {n: sys.modules.get(n) for n in swap}
        sys.modules.update(swap)
        try:
            exec(code, mod.__dict__)
        finally:
            for n, m in saved.items():
                if m is not None:
                    sys.modules[n] = m
                else:
                    sys.modules.pop(n, None)
        if transform:
            for k, v in SHADOW.items():
                if shadow is not None and k not in shadow:
                    continue
                mod.__dict__.setdefault(k, v)
        mod.__vc_functions__ = fns
        _mods[key] = mod
        _pristine[key] = dict(mod.__dict__)
    else:
        mod.__dict__.clear()
        mod.__dict__.update(_pristine[key])
    if overrides:
        mod.__dict__.update(overrides)
    return mod


_mods = {}
_pristine = {}
