"""pyvc.core - path explorer, symbolic values, obligations.

The verified program text is the real source of /repo executed by CPython on
symbolic values: a *harness* (the contract of one function) builds a symbolic
pre-state, calls the real function, and states the postcondition through
``ctx.check``.  Every branch on a symbolic condition forks the path (by
re-execution with a decision prefix); every ``ctx.check`` is one verification
condition  path-condition => goal  handed to z3.
"""
import asyncio
import signal
import time
import random as _random
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """The current path is finished (infeasible, cut, or not interesting)."""


class Unsupported(BaseException):
    """The code left the subset the verifier understands."""

    def __init__(self, msg=""):
        super().__init__(msg)
        # survive user code which swallows BaseException
        if CURRENT is not None:
            CURRENT.dead = True
            CURRENT.unsup = str(msg)


class Discard(BaseException):
    """Concrete mode: the drawn values do not satisfy the precondition."""


class Restart(BaseException):
    """A candidate invariant was dropped; the exploration has to be redone."""


CURRENT = None      # the active Ctx


def cur():
    if CURRENT is None:
        raise Unsupported("symbolic value used outside of a run")
    return CURRENT


# --------------------------------------------------------------------------
# terms: hash-consed, converted to z3 only when a query needs them
# --------------------------------------------------------------------------

class Term:
    __slots__ = ("op", "args", "sort", "_z3")

    def __repr__(self):
        return str(to_z3(self))


_terms = {}


def _mk(op, args, sort):
    key = (op, sort) + tuple(id(a) if isinstance(a, Term) else a for a in args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t._z3 = op, args, sort, None
        _terms[key] = t
    return t


def var(name, sort):
    return _mk("var", (name,), sort)


def const(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if sort is None:
        sort = "I" if isinstance(v, int) else "R"
    if sort == "R":
        v = Fraction(v)
        return _mk("const", (v.numerator, v.denominator), "R")
    return _mk("const", (int(v), 1), "I")


def raw(z):
    """a boolean z3 expression as a term"""
    t = _mk("raw", (z.get_id(),), "B")
    t._z3 = z
    return t


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def isconst(t):
    return t.op == "const"


def cval(t):
    n, d = t.args
    return n if t.sort == "I" else Fraction(n, d)


def to_real(t):
    if t.sort == "R":
        return t
    if isconst(t):
        return const(Fraction(t.args[0]), "R")
    return _mk("toreal", (t,), "R")


def _both(a, b):
    if a.sort == b.sort:
        return a, b
    return to_real(a), to_real(b)


def t_add(a, b):
    a, b = _both(a, b)
    if isconst(a) and isconst(b):
        return const(cval(a) + cval(b), a.sort)
    if isconst(a) and cval(a) == 0:
        return b
    if isconst(b) and cval(b) == 0:
        return a
    return _mk("+", (a, b), a.sort)


def t_sub(a, b):
    a, b = _both(a, b)
    if isconst(a) and isconst(b):
        return const(cval(a) - cval(b), a.sort)
    if isconst(b) and cval(b) == 0:
        return a
    if a is b:
        return const(0, a.sort)
    return _mk("-", (a, b), a.sort)


def t_mul(a, b):
    a, b = _both(a, b)
    if isconst(a) and isconst(b):
        return const(cval(a) * cval(b), a.sort)
    for x, y in ((a, b), (b, a)):
        if isconst(x):
            if cval(x) == 1:
                return y
            if cval(x) == 0:
                return x
    return _mk("*", (a, b), a.sort)


def t_div(a, b):        # real division
    a, b = to_real(a), to_real(b)
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(cval(a) / cval(b), "R")
    if isconst(b) and cval(b) == 1:
        return a
    return _mk("/", (a, b), "R")


def t_idiv(a, b):       # euclidean, b > 0 everywhere it is used
    if isconst(a) and isconst(b) and cval(b) > 0:
        return const(cval(a) // cval(b), "I")
    return _mk("div", (a, b), "I")


def t_toint(a):         # floor
    if a.sort == "I":
        return a
    if isconst(a):
        v = cval(a)
        return const(v.numerator // v.denominator, "I")
    return _mk("toint", (a,), "I")


def t_cmp(op, a, b):
    a, b = _both(a, b)
    if a is b:
        return TRUE if op in ("<=", ">=", "==") else FALSE
    if isconst(a) and isconst(b):
        x, y = cval(a), cval(b)
        r = {"<": x < y, "<=": x <= y, "==": x == y}[op]
        return TRUE if r else FALSE
    return _mk(op, (a, b), "B")


def t_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B")


def t_and(*xs):
    r = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE and x not in r:
            r.append(x)
    if not r:
        return TRUE
    return r[0] if len(r) == 1 else _mk("and", tuple(r), "B")


def t_or(*xs):
    r = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is not FALSE and x not in r:
            r.append(x)
    if not r:
        return FALSE
    return r[0] if len(r) == 1 else _mk("or", tuple(r), "B")


def t_iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return t_not(b)
    if b is FALSE:
        return t_not(a)
    return _mk("iff", (a, b), "B")


def t_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = _both(a, b)
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


def to_z3(t):
    z = t._z3
    if z is not None:
        return z
    op = t.op
    if op == "var":
        z = {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[t.sort](t.args[0])
    elif op == "const":
        z = z3.IntVal(t.args[0]) if t.sort == "I" else \
            z3.RealVal("%d/%d" % t.args)
    elif op == "true":
        z = z3.BoolVal(True)
    elif op == "false":
        z = z3.BoolVal(False)
    else:
        a = [to_z3(x) for x in t.args]
        if op == "+": z = a[0] + a[1]
        elif op == "-": z = a[0] - a[1]
        elif op == "*": z = a[0] * a[1]
        elif op in ("/", "div"): z = a[0] / a[1]
        elif op == "<": z = a[0] < a[1]
        elif op == "<=": z = a[0] <= a[1]
        elif op in ("==", "iff"): z = a[0] == a[1]
        elif op == "not": z = z3.Not(a[0])
        elif op == "and": z = z3.And(a)
        elif op == "or": z = z3.Or(a)
        elif op == "ite": z = z3.If(*a)
        elif op == "toreal": z = z3.ToReal(a[0])
        elif op == "toint": z = z3.ToInt(a[0])
        else: raise AssertionError(op)
    t._z3 = z
    return z


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------

def _lift(v):
    """python number / proxy -> arithmetic term (or None)"""
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return t_ite(v.e, const(1), const(0))
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, int):
        return const(int(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return const(Fraction(v), "R")
    if isinstance(v, Fraction):
        return const(v, "R")
    return None


def num(e):
    if isconst(e):
        return cval(e)
    return SymInt(e) if e.sort == "I" else SymReal(e)


def boolean(e):
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return SymBool(e)


def zbool(v):
    """python/proxy truth value -> boolean term (without forking)"""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymNum):
        return t_not(t_cmp("==", v.e, const(0)))
    if isinstance(v, Term):
        return v
    return TRUE if v else FALSE


class SymNum:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, other, op, swap=False):
        o = _lift(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.e) if swap else (self.e, o)
        return num(op(a, b))

    def __add__(self, o): return self._bin(o, t_add)
    def __radd__(self, o): return self._bin(o, t_add, True)
    def __sub__(self, o): return self._bin(o, t_sub)
    def __rsub__(self, o): return self._bin(o, t_sub, True)
    def __mul__(self, o): return self._bin(o, t_mul)
    def __rmul__(self, o): return self._bin(o, t_mul, True)
    def __neg__(self): return num(t_sub(const(0, self.e.sort), self.e))
    def __pos__(self): return self
    def __abs__(self): return ite(self >= 0, self, -self)

    @staticmethod
    def _nonzero(b, what):
        if isconst(b):
            zero = cval(b) == 0
        else:
            zero = cur().branch(t_cmp("==", b, const(0)))
        if zero:
            raise ZeroDivisionError(what)

    @classmethod
    def _divide(cls, a, b):
        cls._nonzero(b, "division by zero")
        return num(t_div(a, b))

    def __truediv__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._divide(self.e, o)

    def __rtruediv__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._divide(o, self.e)

    @classmethod
    def _floordiv(cls, a, b):
        cls._nonzero(b, "integer division or modulo by zero")
        if a.sort == "I" and b.sort == "I":
            if cur().branch(t_cmp("<", const(0), b)):
                return num(t_idiv(a, b))
            z = const(0)
            return num(t_idiv(t_sub(z, a), t_sub(z, b)))
        return num(to_real(t_toint(t_div(a, b))))

    @classmethod
    def _mod(cls, a, b):
        q = _lift(cls._floordiv(a, b))
        return num(t_sub(a, t_mul(q, b)))

    def __floordiv__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._floordiv(self.e, o)

    def __rfloordiv__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._floordiv(o, self.e)

    def __mod__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._mod(self.e, o)

    def __rmod__(self, o):
        o = _lift(o)
        return NotImplemented if o is None else self._mod(o, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        # 2 ** x: an unknown positive real, ordered like x around 0 and 1
        ctx = cur()
        r = ctx.real("pow")
        ctx.assume(r > 0)
        if o == 2:
            ctx.assume(iff(r >= 1, self >= 0))
            ctx.assume(iff(r >= 2, self >= 1))
            ctx.assume(iff(r > 1, self > 0))
            ctx.assume(iff(r > 2, self > 1))
        return r

    def _cmp(self, other, op, swap, inf):
        o = _lift(other)
        if o is None:
            if isinstance(other, float):
                return inf(other)
            return NotImplemented
        a, b = (o, self.e) if swap else (self.e, o)
        return boolean(t_cmp(op, a, b))

    def __lt__(self, o): return self._cmp(o, "<", False, lambda x: x > 0)
    def __le__(self, o): return self._cmp(o, "<=", False, lambda x: x > 0)
    def __gt__(self, o): return self._cmp(o, "<", True, lambda x: x < 0)
    def __ge__(self, o): return self._cmp(o, "<=", True, lambda x: x < 0)

    def __eq__(self, o):
        r = self._cmp(o, "==", False, lambda x: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __bool__(self):
        return cur().branch(zbool(self))

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    __float__ = __int__

    def __index__(self):
        return cur().concretize(self)

    def __repr__(self):
        s = "<%s>" % (self.e,)
        if CURRENT is not None:
            CURRENT.texts[s] = self
        return s

    def __format__(self, spec):
        return repr(self)


class SymInt(SymNum):
    __slots__ = ()

    def to_int(self):
        return self

    def to_real(self):
        return num(to_real(self.e))

    def bit_length(self):
        raise Unsupported("bit_length")


class SymReal(SymNum):
    __slots__ = ()

    def to_int(self):
        return ite(self >= 0, num(t_toint(self.e)),
                   -num(t_toint(t_sub(const(0, "R"), self.e))))

    def to_real(self):
        return self


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o): return boolean(t_and(self.e, zbool(o)))
    __rand__ = __and__
    def __or__(self, o): return boolean(t_or(self.e, zbool(o)))
    __ror__ = __or__
    def __invert__(self): return boolean(t_not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return boolean(t_iff(self.e, zbool(o)))
        return num(_lift(self)) == o

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __add__(self, o): return num(_lift(self)) + o
    __radd__ = __add__

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __repr__(self):
        return "<%s>" % (self.e,)


def conj(*xs):
    return boolean(t_and(*[zbool(x) for x in xs]))


def disj(*xs):
    return boolean(t_or(*[zbool(x) for x in xs]))


def implies(a, b):
    return boolean(t_or(t_not(zbool(a)), zbool(b)))


def iff(a, b):
    return boolean(t_iff(zbool(a), zbool(b)))


def formatted(text):
    """the symbolic number which is written like that, or None"""
    return CURRENT.texts.get(text) if CURRENT is not None else None


def negate(a):
    return boolean(t_not(zbool(a)))


def ite(c, a, b):
    c = zbool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return num(t_ite(c, _lift(a), _lift(b)))


def smin(a, b):
    return ite(a <= b, a, b)


def smax(a, b):
    return ite(a >= b, a, b)


class Opaque:
    """An arbitrary user value: only its identity is known.  Whatever else
    the code asks about it is decided by a fork."""

    def __init__(self, name):
        self.__dict__["_vc_name"] = name

    def __repr__(self):
        return "<opaque %s>" % self._vc_name

    def __bool__(self):
        c = CURRENT
        if c is None:
            return True
        d = self.__dict__
        if "_vc_truth" not in d:
            d["_vc_truth"] = bool(c.choose(2, "truth(%s)" % self._vc_name) == 0)
        return d["_vc_truth"]


def _outside(name):
    def f(self, *a, **k):
        raise Unsupported("%s.%s" % (type(self).__name__, name))
    return f


class Abstract:
    """Base of abstract stand-ins: what they do not define is outside of the
    verified subset (never an error of the code under test)."""
    for _n in ("iter next len contains getitem setitem delitem bool add radd iadd sub rsub isub or ror ior and rand "
               "iand xor lt le gt ge call enter exit await aiter anext aenter aexit index int float reversed "
               "copy deepcopy").split():
        locals()["__%s__" % _n] = _outside("__%s__" % _n)
    del _n

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (type(self).__name__, n))


# --------------------------------------------------------------------------
# obligations
# --------------------------------------------------------------------------

class Obligation:
    def __init__(self, name):
        self.name = name
        self.total = 0          # verification conditions generated
        self.smt = 0            # of those, sent to the solver
        self.proved = 0
        self.refuted = []       # [(exact, choices, values, text)]
        self.unknown = []

    @property
    def status(self):
        if self.refuted:
            return "refuted"
        if self.unknown:
            return "unknown"
        return "proved" if self.total else "empty"


class Report:
    """Result of the exploration of one harness."""

    def __init__(self, name):
        self.name = name
        self.functions = set()
        self.obligations = {}
        self.covers = {}
        self.paths = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.unsupported = []
        self.errors = []
        self.assumptions = set()
        self.candidates_kept = []
        self.candidates_dropped = []
        self.truncated = False
        self.second_opinion = {}
        self.string_queries = {}

    def merge(self, sub):
        self.functions |= sub.functions
        for n, o in sub.obligations.items():
            m = self.ob(n)
            m.total += o.total
            m.smt += o.smt
            m.proved += o.proved
            m.refuted += o.refuted
            m.unknown += o.unknown
        for n, c in sub.covers.items():
            self.covers[n] = max(self.covers.get(n, 0), c)
        self.paths += sub.paths
        self.solver_time += sub.solver_time
        self.solver_calls += sub.solver_calls
        for u in sub.unsupported:
            if u not in self.unsupported:
                self.unsupported.append(u)
        self.errors += sub.errors
        self.assumptions |= sub.assumptions
        self.truncated = self.truncated or sub.truncated
        self.string_queries.update({
            k: self.string_queries.get(k, 0) + v
            for k, v in sub.string_queries.items()
        })
        self.second_opinion.update({
            k: self.second_opinion.get(k, 0) + v
            for k, v in sub.second_opinion.items()
        })

    def ob(self, name):
        if name not in self.obligations:
            self.obligations[name] = Obligation(name)
        return self.obligations[name]


# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------

def cvc5_check(text, ms):
    """the verdict of cvc5 on an SMT-LIB text"""
    import cvc5
    try:
        s = cvc5.Solver()
        s.setOption("tlimit-per", str(ms))
        s.setOption("strings-exp", "true")
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += c.invoke(s, sm)
        return out.strip().splitlines()[-1] if out.strip() else "none"
    except Exception:
        return "error"


class Ctx:
    """One run of a harness."""

    sym = True

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.trail = []
        self.choices = []
        self._solver = None
        self.pending = []       # path condition not yet given to the solver
        self.names = {}
        self.vars = {}
        self.dead = False
        self.abstract = 0       # >0 once a loop cut / havoc was used
        self.log = []
        self.iter_count = {}
        self.rng = None
        self.steps = 0
        self.cleanup = []
        self.unsup = None
        self.foreign = None     # an operation a stub does not have
        self.texts = {}         # how symbolic numbers are written
        self.loops = {}

    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.x.timeout_ms)
        if self.pending:
            for t in self.pending:
                self._solver.add(to_z3(t))
            self.pending = []
        return self._solver

    # -- values
    def _fresh(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if not n else "%s#%d" % (name, n)

    def int(self, name, lo=None, hi=None, near=None):
        n = self._fresh(name)
        v = SymInt(var(n, "I"))
        self.vars[n] = v.e
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None, near=None):
        n = self._fresh(name)
        v = SymReal(var(n, "R"))
        self.vars[n] = v.e
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        n = self._fresh(name)
        v = SymBool(var(n, "B"))
        self.vars[n] = v.e
        return v

    def opaque(self, name):
        return Opaque(self._fresh(name))

    # -- decisions
    def _decide(self, options, label):
        """options: list of feasible values; returns the one to take"""
        if self.dead:
            raise PathEnd
        self.steps += 1
        if self.steps > self.x.max_steps:
            raise Unsupported("path too long")
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            opts = options()
            if not opts:
                self.dead = True
                raise PathEnd
            v = opts[0]
            for o in opts[1:]:
                self.x.work.append(tuple(self.trail) + (o,))
        self.trail.append(v)
        return v

    def _sat(self, e):
        t = time.perf_counter()
        sv = self.solver
        if self.strings:
            sv.push()
            sv.add(to_z3(e))
            r = self._strings(sv)
            sv.pop()
        elif e is TRUE:
            r = sv.check()
        else:
            sv.push()
            sv.add(to_z3(e))
            r = sv.check()
            sv.pop()
        self.x.report.solver_time += time.perf_counter() - t
        self.x.report.solver_calls += 1
        return r

    strings = False         # the path talks about strings: cvc5 decides

    def _strings(self, sv):
        r = cvc5_check("(set-logic ALL)\n" + sv.to_smt2(), 8000)
        k = self.x.report.string_queries
        k[r] = k.get(r, 0) + 1
        return {"sat": z3.sat, "unsat": z3.unsat}.get(r, z3.unknown)

    def branch(self, e):
        e = zbool(e)
        if e is TRUE:
            return True
        if e is FALSE:
            return False
        if self.dead:
            raise PathEnd

        def options():
            r = []
            if self._sat(e) != z3.unsat:
                r.append(True)
                if self._sat(t_not(e)) != z3.unsat:
                    r.append(False)
            else:
                r.append(False)
            return r

        v = self._decide(options, "branch")
        self.pending.append(e if v else t_not(e))
        return v

    def choose(self, n, label=""):
        v = self._decide(lambda: list(range(n)), label)
        self.choices.append(v)
        self.log.append("%s=%d" % (label, v))
        return v

    def pick(self, options, label=""):
        return options[self.choose(len(options), label)]

    def concretize(self, v):
        """enumerate the values of a symbolic int if there are few"""
        e = v.e

        def options():
            r = []
            sv = self.solver
            z = to_z3(e)
            sv.push()
            try:
                while len(r) <= 8:
                    if sv.check() != z3.sat:
                        break
                    m = sv.model().eval(z, model_completion=True)
                    r.append(m.as_long())
                    sv.add(z != m)
            finally:
                sv.pop()
            if len(r) > 8:
                raise Unsupported("symbolic integer used as a machine index")
            return sorted(r)

        k = self._decide(options, "concretize")
        self.pending.append(t_cmp("==", e, const(k)))
        return k

    def assume(self, c):
        if self.dead:
            raise PathEnd
        if isinstance(c, bool):
            if not c:
                self.dead = True
                raise PathEnd
            return
        self.pending.append(zbool(c))

    def feasible(self):
        """end the path here if the assumptions are contradictory"""
        if self.dead:
            raise PathEnd
        if len(self.trail) >= len(self.prefix) and self._sat(TRUE) == z3.unsat:
            self.dead = True
            raise PathEnd

    def stop(self):
        self.dead = True
        raise PathEnd

    def cover(self, name):
        if self.dead:
            raise PathEnd
        rep = self.x.report
        if not rep.covers.get(name):
            if self._sat(TRUE) == z3.sat:
                rep.covers[name] = rep.covers.get(name, 0) + 1

    def expect_cover(self, *names):
        for n in names:
            self.x.report.covers.setdefault(n, 0)

    def note(self, text):
        self.log.append(text)

    def assumption(self, text):
        self.x.report.assumptions.add(text)

    # -- obligations
    def values(self, model):
        r = {}
        for n, v in self.vars.items():
            m = model.eval(to_z3(v), model_completion=True)
            if z3.is_int_value(m):
                r[n] = m.as_long()
            elif z3.is_rational_value(m):
                r[n] = Fraction(m.numerator_as_long(), m.denominator_as_long())
            elif z3.is_algebraic_value(m):
                a = m.approx(20)
                r[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                r[n] = z3.is_true(m)
        return r

    def check(self, cond, name, detail=""):
        if self.dead:
            raise PathEnd
        o = self.x.report.ob(name)
        # replayed prefixes re-generate the conditions of their parent path:
        # count and solve those only once
        if len(self.trail) < len(self.prefix):
            if not isinstance(cond, bool):
                self.pending.append(zbool(cond))
            elif not cond:
                self.dead = True
                raise PathEnd
            return
        o.total += 1
        if isinstance(cond, bool) and cond:
            o.proved += 1
            return
        goal = zbool(cond)
        if goal is TRUE:
            o.proved += 1
            return
        o.smt += 1
        t = time.perf_counter()
        sv = self.solver
        sv.push()
        sv.add(to_z3(t_not(goal)))
        r = self._strings(sv) if self.strings else sv.check()
        if self.x.on_query is not None:
            self.x.on_query(sv, r, name)
        model = sv.model() if r == z3.sat and not self.strings else None
        reason = "" if r != z3.unknown else \
            "cvc5" if self.strings else sv.reason_unknown()
        sv.pop()
        self.x.report.solver_time += time.perf_counter() - t
        self.x.report.solver_calls += 1
        if r == z3.unsat:
            o.proved += 1
            self.pending.append(goal)
            return
        if r == z3.sat:
            if self.foreign is not None:
                o.total -= 1
                o.smt -= 1
                raise Unsupported(self.foreign)
            o.refuted.append({
                "exact": not self.abstract,
                "choices": list(self.choices),
                "values": {} if model is None else self.values(model),
                "detail": str(detail),
                "log": list(self.log),
                "goal": str(z3.simplify(to_z3(goal)))[:500],
            })
            # continue only where the goal holds
            if isinstance(cond, bool):
                self.dead = True
                raise PathEnd
            self.pending.append(goal)
            self.feasible()
            return
        o.unknown.append(reason)
        self.pending.append(goal)

    def fail(self, name, detail=""):
        self.check(False, name, detail)


class ConcCtx(Ctx):
    """Same harness on concrete values: replay of a counterexample
    (values/choices given) or random execution (rng given)."""

    sym = False

    def __init__(self, report, rng=None, values=None, choices=None):
        self.report = report
        self.rng = rng or _random.Random(0)
        self.given = values
        self.given_choices = list(choices) if choices is not None else None
        self.choices = []
        self.names = {}
        self.drawn = {}
        self.dead = False
        self.abstract = 0
        self.log = []
        self.failures = []
        self.iter_count = {}
        self.steps = 0
        self.covers = set()
        self.cleanup = []
        self.unsup = None
        self.foreign = None     # an operation a stub does not have
        self.texts = {}         # how symbolic numbers are written
        self.loops = {}
        self.trail = []
        self.prefix = ()

    def _value(self, name, gen):
        n = self._fresh(name)
        if self.given is not None and n in self.given:
            v = self.given[n]
        else:
            v = gen()
        self.drawn[n] = v
        return v

    def int(self, name, lo=None, hi=None, near=None):
        def gen():
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + self.rng.choice((2, 4, 8, 20))
            if near is not None and self.rng.random() < 0.5:
                v = near + self.rng.choice((-1, 0, 1))
                return min(max(v, a), b if hi is not None else v)
            return self.rng.randint(int(a), max(int(a), int(b)))
        v = self._value(name, gen)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard
        return v

    def real(self, name, lo=None, hi=None, near=None):
        def gen():
            a = Fraction(lo) if lo is not None else Fraction(-3)
            b = Fraction(hi) if hi is not None else a + self.rng.choice((1, 3, 20))
            r = self.rng.random()
            if near is not None and r < 0.5:
                v = Fraction(near) + Fraction(self.rng.choice((-1, 0, 1)), 8)
                return min(max(v, a), b if hi is not None else v)
            if r < 0.6:
                return a
            if r < 0.7:
                return b
            return a + (b - a) * Fraction(self.rng.randint(0, 32), 32)
        v = self._value(name, gen)
        v = Fraction(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard
        return v

    def bool(self, name):
        return self._value(name, lambda: self.rng.random() < 0.5)

    def branch(self, e):
        return bool(e)

    def choose(self, n, label=""):
        if self.dead:
            raise PathEnd
        self.steps += 1
        if self.steps > 20000:
            raise PathEnd
        if self.given_choices is not None:
            if not self.given_choices:
                v = 0
            else:
                v = self.given_choices.pop(0)
                if v >= n:
                    raise Discard
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        self.log.append("%s=%d" % (label, v))
        return v

    def concretize(self, v):
        return int(v)

    def assume(self, c):
        if not c:
            raise Discard

    def feasible(self):
        pass

    def cover(self, name):
        self.covers.add(name)

    def expect_cover(self, *names):
        pass

    def assumption(self, text):
        pass

    def check(self, cond, name, detail=""):
        if self.dead:
            raise PathEnd
        self.report["checks"] = self.report.get("checks", 0) + 1
        if not cond:
            if self.foreign is not None:
                raise Unsupported(self.foreign)
            self.failures.append((name, str(detail)))
            self.dead = True
            raise PathEnd


class Stuck(BaseException):
    """one execution goes on and on: a loop which never gives way"""


STUCK_S = 30.0          # an execution takes milliseconds


def _stuck(*_):
    raise Stuck


def watched(fn, *args, **kw):
    """fn(), ended when it spins"""
    old = signal.signal(signal.SIGALRM, _stuck)
    signal.setitimer(signal.ITIMER_REAL, STUCK_S, 1.0)
    try:
        return fn(*args, **kw)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Explorer:
    def __init__(self, name, timeout_ms=5000, max_paths=20000,
                 max_steps=4000, budget_s=120.0, on_query=None, jobs=1):
        self.report = Report(name)
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.budget_s = budget_s
        self.work = []
        self.cands = {}         # candidate invariants: key -> alive?
        self.on_query = on_query
        self.jobs = jobs
        self.child_init = None

    def _explore(self, harness, rep, limit=None):
        """work off self.work (stop early once ``limit`` prefixes wait);
        -> True when a candidate invariant was dropped"""
        global CURRENT
        while self.work:
            if limit is not None and len(self.work) >= limit:
                return False
            if rep.paths >= self.max_paths or time.perf_counter() > self.until:
                rep.truncated = True
                rep.unsupported.append("path budget exhausted")
                return False
            ctx = Ctx(self, self.work.pop(0 if limit is not None else -1))
            CURRENT = ctx
            try:
                watched(harness, ctx)
                rep.paths += 1
            except PathEnd:
                rep.paths += 1
            except Restart:
                return True
            except Stuck:
                rep.unsupported.append("a path which does not end")
                rep.truncated = True
                return False
            except Unsupported as e:
                if str(e) not in rep.unsupported:
                    rep.unsupported.append(str(e))
            except RecursionError:
                rep.unsupported.append("recursion limit")
            except (Exception, asyncio.CancelledError) as e:
                import traceback
                if ctx.unsup is None:
                    rep.errors.append("%s: %s\n%s" % (
                        type(e).__name__, e,
                        "".join(traceback.format_tb(e.__traceback__)[-4:]),
                    ))
            finally:
                ctx.dead = True
                CURRENT = None
                for c in ctx.cleanup:
                    c()
            if ctx.unsup is not None and ctx.unsup not in rep.unsupported:
                rep.unsupported.append(ctx.unsup)
            if len(rep.errors) + len(rep.unsupported) > 40:
                rep.truncated = True
                return False
        return False

    def run(self, harness):
        """explore every path of harness(ctx); start again while candidate
        invariants (Houdini) are being dropped"""
        self.until = time.perf_counter() + self.budget_s
        while True:
            rep = Report(self.report.name)
            self.report = rep
            self.work = [()]
            jobs = self.jobs
            dropped = self._explore(
                harness, rep, limit=jobs * 16 if jobs > 1 else None)
            if not dropped and self.work and not rep.truncated:
                dropped = self._parallel(harness, rep, jobs)
            if not dropped:
                break
        rep.candidates_kept = sorted(
            str(k) for k, v in self.cands.items() if v)
        rep.candidates_dropped = sorted(
            str(k) for k, v in self.cands.items() if not v)
        return rep

    def _parallel(self, harness, rep, jobs):
        import os
        import pickle
        work, self.work = self.work, []
        procs = []
        for k in range(jobs):
            mine = work[k::jobs]
            if not mine:
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    sub = Report(rep.name)
                    sub.covers = {n: 0 for n in rep.covers}
                    sub.covers.update(rep.covers)
                    self.report = sub
                    self.work = mine
                    if self.child_init is not None:
                        self.child_init()
                    d = self._explore(harness, sub)
                    sub.functions = set(FUNCTIONS_SEEN)
                    data = pickle.dumps((d, self.cands, sub))
                except BaseException as e:      # noqa
                    import traceback
                    sub = Report(rep.name)
                    sub.errors.append("worker: " + traceback.format_exc())
                    data = pickle.dumps((False, {}, sub))
                try:
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(w)
            procs.append((pid, r))
        dropped = False
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                rep.unsupported.append("worker process died")
                continue
            d, cands, sub = pickle.loads(data)
            for k, v in cands.items():
                self.cands[k] = self.cands.get(k, True) and v
            dropped = dropped or d
            rep.merge(sub)
        return dropped


FUNCTIONS_SEEN = set()      # (file, qualname) of /repo code executed


def run_concrete(harness, report, rng=None, values=None, choices=None):
    """-> (ctx, status) status in ok / fail / discard / unsupported / error"""
    global CURRENT
    ctx = ConcCtx(report, rng, values, choices)
    CURRENT = ctx
    status = "ok"
    try:
        harness(ctx)
    except PathEnd:
        pass
    except Discard:
        status = "discard"
    except Unsupported as e:
        status = "unsupported"
        ctx.log.append("unsupported: %s" % e)
    except (Exception, asyncio.CancelledError) as e:
        import traceback
        status = "error"
        ctx.log.append("error: %s: %s %s" % (
            type(e).__name__, e, traceback.format_tb(e.__traceback__)[-3:]))
    finally:
        ctx.dead = True
        CURRENT = None
        for c in ctx.cleanup:
            c()
    if ctx.unsup is not None:
        status = "unsupported"
    if ctx.failures:
        status = "fail"
    return ctx, status
