"""Strings of any length, decided by z3's theory of sequences.  Only what the
contracts need; anything else is outside of the verified subset.

Case: a string variable has a lower case twin (another variable, of the same
length, with dots at the same places where that matters); nothing else is
known about the two, so code which compares without normalising the case
cannot be verified."""
import z3

from . import core
from .core import Unsupported


def _z(x):
    if isinstance(x, SymStr):
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("a string and %s" % type(x).__name__)


def _b(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return core.boolean(core.raw(z))


class SymStr:
    def __init__(self, z, low=None):
        self.z = z
        self._low = low     # the lower case twin (itself if None)

    @staticmethod
    def var(ctx, name):
        n = ctx._fresh(name)
        ctx.strings = True
        low = z3.String(n + ".lower")
        s = SymStr(z3.String(n), None)
        s._low = SymStr(low)
        ctx.assume(_b(z3.Length(s.z) == z3.Length(low)))
        for f in (z3.PrefixOf, z3.SuffixOf):
            d = z3.StringVal(".")
            ctx.assume(_b(f(d, s.z) == f(d, low)))
        return s

    def lower(self):
        return self._low or self

    casefold = lower

    def _cat(self, a, b):
        la = a.lower() if isinstance(a, (SymStr, str)) else None
        lb = b.lower() if isinstance(b, (SymStr, str)) else None
        r = SymStr(z3.Concat(_z(a), _z(b)))
        r._low = SymStr(z3.Concat(_z(la), _z(lb)))
        return r

    def __add__(self, o):
        if isinstance(o, str) and not o:
            return self
        return self._cat(self, o)

    def __radd__(self, o):
        if isinstance(o, str) and not o:
            return self
        return self._cat(o, self)

    def _any(self, f, o, a):
        if a:
            raise Unsupported("position in a string")
        if isinstance(o, tuple):
            return core.disj(*[_b(f(_z(x), self.z)) for x in o])
        return _b(f(_z(o), self.z))

    def endswith(self, o, *a):
        return self._any(z3.SuffixOf, o, a)

    def startswith(self, o, *a):
        return self._any(z3.PrefixOf, o, a)

    def __contains__(self, o):
        return bool(_b(z3.Contains(self.z, _z(o))))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return _b(self.z == _z(o))

    def __ne__(self, o):
        return core.negate(self.__eq__(o))

    __hash__ = None

    def __vc_len__(self):
        raise Unsupported("length of a string")

    def __bool__(self):
        return bool(_b(self.z != z3.StringVal("")))

    def _strip(self, s, front, back):
        """at most one dot at either end (the contract's precondition)"""
        if s != ".":
            raise Unsupported("strip of something else")
        d = z3.StringVal(".")

        def cut(z):
            if front:
                z = z3.If(z3.PrefixOf(d, z), z3.SubString(z, 1, z3.Length(z) - 1), z)
            if back:
                z = z3.If(z3.SuffixOf(d, z), z3.SubString(z, 0, z3.Length(z) - 1), z)
            return z
        r = SymStr(cut(self.z))
        r._low = SymStr(cut(self.lower().z))
        return r

    def lstrip(self, s=None):
        return self._strip(s, True, False)

    def rstrip(self, s=None):
        return self._strip(s, False, True)

    def strip(self, s=None):
        return self._strip(s, True, True)

    def removeprefix(self, s):
        return self._strip(s, True, False)

    def removesuffix(self, s):
        return self._strip(s, False, True)

    def __format__(self, spec):
        return "<string>"

    __repr__ = __str__ = lambda self: "<string>"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("str." + n)

    def __getitem__(self, i):
        raise Unsupported("slice of a string")
