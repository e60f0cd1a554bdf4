"""Symbolic values: Python objects that wrap z3 terms and stand for int, bool and real numbers.

Operations build terms; only truth tests (__bool__) and requests for a concrete number (__index__, __int__, __float__,
__str__, __hash__ of a plain SymInt) involve the engine, which forks the path over every feasible outcome.
"""
import builtins
from fractions import Fraction

from . import engine as _e
from .z3load import z3

BV = 24  # width used for general bitwise operators on non-negative ranges


def is_sym(x):
    t = builtins.type(x)
    return t is SymInt or t is SymBool or t is SymReal or t is SymStr


def _frac(f):
    f = Fraction(f)
    return z3.RealVal(f)


def as_int_term(x):
    if builtins.type(x) is SymInt:
        return x.e, x.lo, x.hi
    if builtins.type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), 0, 1
    if isinstance(x, int):
        x = int(x)
        return z3.IntVal(x), x, x
    if hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "iub":
        x = int(x)
        return z3.IntVal(x), x, x
    return None


def as_real_term(x):
    t = builtins.type(x)
    if t is SymReal:
        return x.e
    if t is SymInt or t is SymBool:
        return z3.ToReal(as_int_term(x)[0])
    if isinstance(x, (int, Fraction)):
        return _frac(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return _frac(x)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "iubf":
        return _frac(x.item())
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _op(a, b):
    return builtins.type(a) is SymInt and a.opaque or builtins.type(b) is SymInt and b.opaque


def mkint(e, lo=None, hi=None, opaque=False):
    if lo is not None and lo == hi and not opaque:
        return lo
    e2 = z3.simplify(e)
    if z3.is_int_value(e2) and not opaque:
        return e2.as_long()
    return SymInt(e2, lo, hi, opaque)


def mkreal(e):
    return SymReal(z3.simplify(e))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return _e.current().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        if _e.current().raise_depth:
            return "<symbolic>"
        return str(bool(self))

    __repr__ = __str__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _b(self, o):
        if builtins.type(o) is SymBool:
            return o.e
        if o is True or o is False:
            return z3.BoolVal(o)
        if getattr(getattr(o, "dtype", None), "kind", "") == "b" and o.shape == ():
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return mkbool(z3.And(self.e, b)) if b is not None else self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return mkbool(z3.Or(self.e, b)) if b is not None else self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return mkbool(z3.Xor(self.e, b)) if b is not None else self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return mkbool(self.e == b)
        return self._int() == o

    def __ne__(self, o):
        b = self._b(o)
        if b is not None:
            return mkbool(self.e != b)
        return self._int() != o

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __invert__(self):
        return -self._int() - 1

    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __truediv__(self, o): return self._int() / o
    def __rtruediv__(self, o): return o / self._int()
    def __floordiv__(self, o): return self._int() // o
    def __mod__(self, o): return self._int() % o
    def __lshift__(self, o): return self._int() << o
    def __rshift__(self, o): return self._int() >> o
    def __neg__(self): return -self._int()
    def __pos__(self): return +self._int()
    def __abs__(self): return self._int()

    def item(self):
        return self


def _add(a, b):
    return None if a is None or b is None else a + b


def _mulrange(a, b, c, d):
    if None in (a, b, c, d):
        return None, None
    p = (a * c, a * d, b * c, b * d)
    return min(p), max(p)


class SymInt:
    """An integer.  opaque=True: only ever compared and hashed together with other opaque values; its hash is constant, so
    that dictionaries and sets compare by (symbolic) equality instead of forcing a concrete value."""
    __slots__ = ("e", "lo", "hi", "opaque")

    def __init__(self, e, lo=None, hi=None, opaque=False):
        self.e, self.lo, self.hi, self.opaque = e, lo, hi, opaque

    __class__ = property(lambda self: int)

    # ---- concretisation ----
    def _conc(self):
        return _e.current().concretize(self.e)

    def __index__(self):
        return self._conc()

    def __int__(self):
        return self._conc()

    def __float__(self):
        return float(self._conc())

    def __hash__(self):
        if self.opaque:
            return 0x5ca1ab1e
        return hash(self._conc())

    def __bool__(self):
        return _e.current().branch(self.e != 0)

    def __str__(self):
        if _e.current().raise_depth:
            return "<symbolic>"
        return str(self._conc())

    __repr__ = __str__

    def __format__(self, spec):
        if _e.current().raise_depth:
            return "<symbolic>"
        return format(self._conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- int API ----
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def item(self):
        return self

    def conjugate(self):
        return self

    def bit_length(self):
        return self._conc().bit_length()

    def bit_count(self):
        return self._conc().bit_count()

    def is_integer(self):
        return True

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(self._conc(), n)

    # ---- comparison ----
    def _cmp(self, o, f, decide):
        t = as_int_term(o)
        if t is None:
            r = as_real_term(o)
            if r is None:
                return NotImplemented
            return mkbool(f(z3.ToReal(self.e), r))
        oe, olo, ohi = t
        if self.lo is not None and self.hi is not None and olo is not None and ohi is not None:
            d = decide(self.lo, self.hi, olo, ohi)
            if d is not None:
                return d
        return mkbool(f(self.e, oe))

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, lambda a, b: a == b, lambda a, b, c, d: False if b < c or d < a else (
            True if a == b == c == d else None))

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, lambda a, b: a != b, lambda a, b, c, d: True if b < c or d < a else (
            False if a == b == c == d else None))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b, c, d: True if b < c else (False if a >= d else None))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b, c, d: True if b <= c else (False if a > d else None))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b, c, d: True if a > d else (False if b <= c else None))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b, c, d: True if a >= d else (False if b < c else None))

    # ---- arithmetic ----
    def __add__(self, o):
        t = as_int_term(o)
        if t is None:
            r = as_real_term(o)
            return NotImplemented if r is None else mkreal(z3.ToReal(self.e) + r)
        return mkint(self.e + t[0], _add(self.lo, t[1]), _add(self.hi, t[2]), _op(self, o))

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        m = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return mkint(z3.If(self.e >= 0, self.e, -self.e), 0, m)

    def __sub__(self, o):
        t = as_int_term(o)
        if t is None:
            r = as_real_term(o)
            return NotImplemented if r is None else mkreal(z3.ToReal(self.e) - r)
        return mkint(self.e - t[0], None if self.lo is None or t[2] is None else self.lo - t[2],
                     None if self.hi is None or t[1] is None else self.hi - t[1])

    def __rsub__(self, o):
        t = as_int_term(o)
        if t is None:
            r = as_real_term(o)
            return NotImplemented if r is None else mkreal(r - z3.ToReal(self.e))
        return mkint(t[0] - self.e, None if self.hi is None or t[1] is None else t[1] - self.hi,
                     None if self.lo is None or t[2] is None else t[2] - self.lo)

    def __mul__(self, o):
        t = as_int_term(o)
        if t is None:
            r = as_real_term(o)
            if r is None:
                if isinstance(o, (list, tuple, str)):
                    return o * self._conc()
                return NotImplemented
            return mkreal(z3.ToReal(self.e) * r)
        lo, hi = _mulrange(self.lo, self.hi, t[1], t[2])
        # keep small-range products linear: case split inside the term
        if t[1] is None or t[1] != t[2]:
            for (x, xl, xh, y) in ((self.e, self.lo, self.hi, t[0]), (t[0], t[1], t[2], self.e)):
                if xl is not None and xh is not None and xh - xl <= 8:
                    e = y * xh
                    for v in range(xl, xh):
                        e = z3.If(x == v, y * v, e)
                    return mkint(e, lo, hi)
        return mkint(self.e * t[0], lo, hi)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _divisor(self, o):
        t = as_int_term(o)
        if t is None:
            return None
        if t[1] is not None and t[1] == t[2]:
            return t[1]
        return o._conc()

    def __floordiv__(self, o):
        if as_int_term(o) is None:
            r = as_real_term(o)
            if r is None:
                return NotImplemented
            return mkreal(z3.ToReal(z3.ToInt(z3.ToReal(self.e) / r)))
        d = self._divisor(o)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        e = (self.e / z3.IntVal(d)) if d > 0 else ((-self.e) / z3.IntVal(-d))
        lo = hi = None
        if self.lo is not None and self.hi is not None:
            lo, hi = sorted((self.lo // d, self.hi // d))
        return mkint(e, lo, hi)

    def __rfloordiv__(self, o):
        return o // self._conc()

    def __mod__(self, o):
        if as_int_term(o) is None:
            return NotImplemented
        d = self._divisor(o)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0 and self.lo is not None and self.hi is not None and 0 <= self.lo and self.hi < d:
            return self
        if d > 0:
            return mkint(self.e % z3.IntVal(d), 0, d - 1)
        return mkint(-((-self.e) % z3.IntVal(-d)), d + 1, 0)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self._conc()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self._conc())

    def __truediv__(self, o):
        t = builtins.type(o)
        if t is SymInt or t is SymReal:
            if o == 0:
                raise ZeroDivisionError("division by zero")
        elif as_real_term(o) is not None and o == 0:
            raise ZeroDivisionError("division by zero")
        if t is SymInt:
            return mkreal(z3.ToReal(self.e) / _frac(o._conc()))
        r = as_real_term(o)
        return NotImplemented if r is None else mkreal(z3.ToReal(self.e) / r)

    def __rtruediv__(self, o):
        d = self._conc()
        return o / d

    def __pow__(self, n, mod=None):
        n = int(n)
        if n < 0:
            return float(self._conc()) ** n
        r = 1
        for _ in range(n):
            r = self * r
        return r if mod is None else r % mod

    def __rpow__(self, o):
        return o ** self._conc()

    # ---- bits ----
    def __lshift__(self, n):
        return self * (1 << int(n))

    def __rlshift__(self, o):
        return o << self._conc()

    def __rshift__(self, n):
        return self // (1 << int(n))

    def __rrshift__(self, o):
        return o >> self._conc()

    def __invert__(self):
        return -self - 1

    def _bits(self, o, op, small):
        t = as_int_term(o)
        if t is None:
            return NotImplemented
        oe, olo, ohi = t
        if None in (self.lo, self.hi, olo, ohi):
            return getattr(int, op)(self._conc(), int(o))
        if 0 <= self.lo and self.hi <= 1 and 0 <= olo and ohi <= 1:
            return mkint(small(self.e, oe), 0, 1)
        if op == "__and__":
            for v, x in ((olo if olo == ohi else None, self),):
                if v is not None and v >= 0 and (v & (v + 1)) == 0:
                    return x % (v + 1)
        if self.lo < 0 or olo < 0 or max(self.hi, ohi) >= (1 << BV):
            return getattr(int, op)(self._conc(), int(o))
        a, b = z3.Int2BV(self.e, BV), z3.Int2BV(oe, BV)
        r = {"__and__": a & b, "__or__": a | b, "__xor__": a ^ b}[op]
        return mkint(z3.BV2Int(r), 0, (1 << max(self.hi, ohi).bit_length()) - 1)

    def __and__(self, o):
        return self._bits(o, "__and__", lambda a, b: z3.If(z3.And(a == 1, b == 1), z3.IntVal(1), z3.IntVal(0)))

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, "__or__", lambda a, b: z3.If(z3.Or(a == 1, b == 1), z3.IntVal(1), z3.IntVal(0)))

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, "__xor__", lambda a, b: z3.If(a == b, z3.IntVal(0), z3.IntVal(1)))

    __rxor__ = __xor__


def rounded(x, n):
    """x rounded to n decimals, ties to the even neighbour"""
    if not is_sym(x) or type(x) is SymInt and n >= 0:
        return round(x, n)
    p, t = z3.RealVal(10 ** abs(n)), as_real_term(x)
    t = t * p if n >= 0 else t / p
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    r = z3.If(z3.Or(d < z3.RealVal("1/2"), z3.And(d == z3.RealVal("1/2"), f % 2 == 0)), f, f + 1)
    return mkreal(z3.ToReal(r) / p if n >= 0 else z3.ToReal(r) * p)


class SymReal:
    """A real number; stands for a Python float with exact arithmetic (rounding is outside the claim)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: float)

    def _conc(self):
        raise _e.Inconclusive("a symbolic real number would have to be made concrete")

    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        return self._conc()

    def __int__(self):
        return int(self.__trunc__())

    def __trunc__(self):
        i = z3.ToInt(self.e)
        return mkint(z3.If(z3.Or(self.e >= 0, z3.ToReal(i) == self.e), i, i + 1))

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __round__(self, n=None):
        r = rounded(self, n or 0)
        return r.__trunc__() if n is None and type(r) is SymReal else int(r) if n is None else r

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __hash__(self):
        return hash(self.__float__())

    def __bool__(self):
        return _e.current().branch(self.e != 0)

    def __str__(self):
        if _e.current().raise_depth:
            return "<symbolic>"
        return str(self.__float__())

    __repr__ = __str__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def _c(self, o, f):
        r = as_real_term(o)
        return NotImplemented if r is None else mkbool(f(self.e, r))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def _o(self, o, f):
        r = as_real_term(o)
        return NotImplemented if r is None else mkreal(f(self.e, r))

    def __add__(self, o): return self._o(o, lambda a, b: a + b)
    def __radd__(self, o): return self._o(o, lambda a, b: b + a)
    def __sub__(self, o): return self._o(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._o(o, lambda a, b: b - a)
    def __mul__(self, o): return self._o(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._o(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._o(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._o(o, lambda a, b: b / a)

    def __neg__(self): return mkreal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n):
        if isinstance(n, int):
            r = 1
            for _ in range(int(n)):
                r = self * r
            return r
        if n == 0.5:
            from .env import usqrt
            return usqrt(self)
        return NotImplemented


class SymStr:
    """A string of concrete length whose characters are concrete or symbolic code points."""
    __slots__ = ("cs", "opaque")

    def __init__(self, cs, opaque=False):
        self.cs = list(cs)  # ints (code points) or z3 terms
        self.opaque = opaque  # only ever hashed together with other opaque strings: see SymInt

    __class__ = property(lambda self: str)

    @staticmethod
    def of(s):
        return s if builtins.type(s) is SymStr else SymStr([ord(ch) for ch in str(s)])

    @staticmethod
    def mk(cs):
        cs = list(cs)
        if all(isinstance(x, int) for x in cs):
            return "".join(chr(x) for x in cs)
        return SymStr(cs)

    def _conc(self):
        eng = _e.current()
        return "".join(chr(x if isinstance(x, int) else eng.concretize(x)) for x in self.cs)

    def __str__(self):
        if _e.current().raise_depth:
            return "<symbolic>"
        return self._conc()

    __repr__ = __str__

    def __hash__(self):
        if self.opaque:
            return 0x0bad5ca1e + len(self.cs)
        return hash(self._conc())

    def __len__(self):
        return len(self.cs)

    def _sub(self, cs):
        return SymStr(cs, True) if self.opaque else SymStr.mk(cs)

    def __iter__(self):
        for x in self.cs:
            yield self._sub([x])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._sub(self.cs[i])
        return self._sub([self.cs[i]])

    def _term(self, o):
        if len(o.cs) != len(self.cs):
            return False
        return z3.And([z3.IntVal(1) == 1] + [(z3.IntVal(a) if isinstance(a, int) else a) ==
                                             (z3.IntVal(b) if isinstance(b, int) else b)
                                             for a, b in zip(self.cs, o.cs)])

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        t = self._term(SymStr.of(o))
        return False if t is False else mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and builtins.type(r) is bool else mkbool(z3.Not(r.e))

    def _lt(self, o, eq):
        o = SymStr.of(o)
        for a, b in zip(self.cs, o.cs):
            a = mkint(z3.IntVal(a) if isinstance(a, int) else a)
            b = mkint(z3.IntVal(b) if isinstance(b, int) else b)
            if a != b:
                return a < b
        return len(self.cs) <= len(o.cs) if eq else len(self.cs) < len(o.cs)

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)
    def __gt__(self, o): return SymStr.of(o)._lt(self, False)
    def __ge__(self, o): return SymStr.of(o)._lt(self, True)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self.opaque and builtins.type(o) is SymStr and o.opaque:
            return SymStr(self.cs + o.cs, True)
        return SymStr.mk(self.cs + SymStr.of(o).cs)

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr.mk(SymStr.of(o).cs + self.cs)

    def __mul__(self, n):
        return self._sub(self.cs * int(n))

    __rmul__ = __mul__

    def __contains__(self, o):
        o = SymStr.of(o)
        n = len(o.cs)
        return any(bool(SymStr(self.cs[i:i + n]) == o) for i in range(len(self.cs) - n + 1))

    def count(self, sub):
        o = SymStr.of(sub)
        if len(o.cs) != 1:
            return self._conc().count(str(sub))
        return sum(1 for x in self.cs if SymStr([x]) == o)

    def index(self, sub):
        o = SymStr.of(sub)
        for i in range(len(self.cs) - len(o.cs) + 1):
            if SymStr(self.cs[i:i + len(o.cs)]) == o:
                return i
        raise ValueError("substring not found")

    def find(self, sub):
        try:
            return self.index(sub)
        except ValueError:
            return -1

    def zfill(self, n):
        return SymStr.mk([ord("0")] * max(0, n - len(self.cs)) + self.cs)

    def rjust(self, n, ch=" "):
        return SymStr.mk([ord(ch)] * max(0, n - len(self.cs)) + self.cs)

    def ljust(self, n, ch=" "):
        return SymStr.mk(self.cs + [ord(ch)] * max(0, n - len(self.cs)))

    def join(self, parts):
        return sx_join(self, parts)

    def _case(self, a, b, d):
        return self._sub([(x + d if a <= x <= b else x) if isinstance(x, int) else
                          z3.simplify(z3.If(z3.And(x >= a, x <= b), x + d, x)) for x in self.cs])

    def lower(self):
        return self._case(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32)

    def startswith(self, p):
        return self[:len(p)] == p

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._conc(), name)


def sx_join(sep, parts):
    parts = list(parts)
    if not any(builtins.type(p) is SymStr for p in parts) and builtins.type(sep) is not SymStr:
        return str.join(sep, parts)
    cs = []
    if parts and not sep and all(builtins.type(p) is SymStr and p.opaque for p in parts):
        return SymStr([c for p in parts for c in p.cs], True)
    sep = SymStr.of(sep)
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError("sequence item %d: expected str instance" % i)
        if i:
            cs += sep.cs
        cs += SymStr.of(p).cs
    return SymStr.mk(cs)


def sym_str(x):
    """str(x) of a symbolic integer: the sign and the number of digits are decided by path, the digits stay terms."""
    t = builtins.type(x)
    if t is SymStr:
        return x
    if t is SymBool:
        return "True" if x else "False"
    if t is not SymInt:
        return str(x)
    eng = _e.current()
    if eng.raise_depth:
        return "<symbolic>"
    neg = bool(x < 0)
    a = -x if neg else x
    if builtins.type(a) is not SymInt:
        return str(int(x))
    n = 1
    while bool(a >= 10 ** n):
        n += 1
    cs = [ord("-")] if neg else []
    for i in range(n - 1, -1, -1):
        d = a // (10 ** i)
        if i < n - 1 or n == 1:
            d = d % 10 if n > 1 else d
        te = as_int_term(d)[0]
        cs.append(z3.simplify(te + 48))
    return SymStr.mk([c.as_long() if z3.is_int_value(c) else c for c in cs])


def sym_base_repr(x, base):
    """np.base_repr for a non-negative symbolic x: the number of digits is decided by path, the digits stay terms."""
    n = 1
    while bool(x >= base ** n):
        n += 1
    cs = []
    for i in range(n - 1, -1, -1):
        d = (x // (base ** i)) % base
        te = as_int_term(d)[0]
        cs.append(z3.simplify(z3.If(te < 10, te + 48, te + 55)) if base > 10 else z3.simplify(te + 48))
    return SymStr.mk([c.as_long() if z3.is_int_value(c) else c for c in cs])


def sym_int(x, base=10):
    """int(x[, base]) for symbolic x."""
    t = builtins.type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if t is SymReal:
        return x.__trunc__()
    if t is SymStr:
        v, neg = 0, False
        cs = x.cs
        if cs and isinstance(cs[0], int) and chr(cs[0]) in "+-":
            neg, cs = chr(cs[0]) == "-", cs[1:]
        if not cs:
            raise ValueError("invalid literal for int()")
        for c in cs:
            if isinstance(c, int):
                d = int(chr(c), base)
            else:
                ch = mkint(c, 0, 0x10ffff)
                if ch >= 48 and ch <= 57:
                    d = ch - 48
                elif base > 10 and ch >= 65 and ch <= 90:
                    d = ch - 55
                elif base > 10 and ch >= 97 and ch <= 122:
                    d = ch - 87
                else:
                    raise ValueError("invalid literal for int()")
                if d >= base:
                    raise ValueError("invalid literal for int()")
            v = v * base + d
        return -v if neg else v
    return None


def deep_eq(a, b):
    """Structural equality of nested values as a single condition (True / False / z3 Bool), without forking on leaves."""
    ta, tb = builtins.type(a), builtins.type(b)
    if a is b:
        return True
    if is_sym(a) or is_sym(b):
        r = a == b if is_sym(a) else b == a
        if r is NotImplemented:
            return False
        return r.e if builtins.type(r) is SymBool else bool(r)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        terms = []
        for k, v in a.items():
            if k not in b:
                return False
            terms.append(deep_eq(v, b[k]))
        return conj(terms)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        return conj([deep_eq(x, y) for x, y in zip(a, b)])
    if hasattr(a, "dtype") or hasattr(b, "dtype"):
        la = a.tolist() if hasattr(a, "tolist") else a
        lb = b.tolist() if hasattr(b, "tolist") else b
        if hasattr(la, "dtype") or hasattr(lb, "dtype"):
            return bool(la == lb)
        return deep_eq(la, lb)
    return bool(a == b)


def conj(terms):
    out = []
    for t in terms:
        if t is False:
            return False
        if builtins.type(t) is SymBool:
            t = t.e
        if t is not True:
            out.append(t)
    if not out:
        return True
    return z3.And(out)


def cond_term(c):
    if builtins.type(c) is SymBool:
        return c.e
    if c is True or c is False:
        return c
    if z3.is_expr(c):
        return c
    return bool(c)
