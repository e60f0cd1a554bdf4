"""The environment of the code under test while it is executed symbolically: numpy/math/random/msgpack stand-ins.

numpy    delegates to the real numpy; integer/float arrays that may have to hold symbolic values are object arrays
math     delegates to the real math; sqrt/sin/cos/radians/log of a symbolic argument are uninterpreted functions
random   every draw is a fresh symbolic value, constrained only by the documented range of the call
msgpack  packb/unpackb of data holding symbolic values: a deep copy with msgpack's documented conversions
"""
import builtins
import math as _math
import random as _random
import re
import string

import numpy as _np
import msgpack as _msgpack

from . import engine as _e
from . import values as v
from .z3load import z3

CTX = None  # the harness context (sx.ctx) of the running path or replay


# ------------------------------------------------------------------ randomness
class Draws:
    """Nondeterministic values; shared by the symbolic run and the concrete replay (which feeds the recorded values)."""

    @staticmethod
    def unit():
        return CTX.draw("real", 0, 1, True)

    @staticmethod
    def real(lo, hi):
        return CTX.draw("real", lo, hi)

    @staticmethod
    def integer(lo, hi):
        if hi < lo:
            raise ValueError("low >= high")
        return CTX.draw("int", lo, hi)

    @staticmethod
    def pick(seq):
        """one of seq; a term if all items are integers, so that the choice does not fork the path"""
        k = Draws.integer(0, len(seq) - 1)
        if builtins.type(k) is v.SymInt and all(isinstance(x, builtins.int) for x in seq):
            ts = [v.as_int_term(x) for x in seq]
            e = ts[-1][0]
            for i in range(len(ts) - 2, -1, -1):
                e = z3.If(k.e == i, ts[i][0], e)
            los, his = [t[1] for t in ts], [t[2] for t in ts]
            op = any(builtins.type(x) is v.SymInt and x.opaque for x in seq)
            return v.mkint(e, None if None in los else min(los), None if None in his else max(his), op)
        return seq[builtins.int(k)]


def _many(size, f):
    if size is None:
        return f()
    if isinstance(size, (tuple, list)):
        n = 1
        for s in size:
            n *= s
        return _mkarr([f() for _ in range(n)]).reshape(size)
    return _mkarr([f() for _ in range(int(size))])


def _kind_of(dtype):
    """i(nteger), i1, i2, i4, u1, u2, u4 (small integers), f(loat), b(ool) or None"""
    if dtype is None:
        return None
    try:
        d = _np.dtype(dtype)
    except TypeError:
        return None
    if d.kind in "iu" and d.itemsize < 8:
        return d.kind + str(d.itemsize)
    return {"i": "i", "u": "i", "f": "f", "b": "b"}.get(d.kind)


def _dtype_of(kind):
    return {"i": _np.dtype(int), "f": _np.dtype(float), "b": _np.dtype(bool)}.get(kind) or _np.dtype(kind)


def _cast(x, kind):
    if kind == "i":
        return sx_call("int", builtins.int, (x,), {})
    if kind == "f":
        return sx_call("float", builtins.float, (x,), {})
    if kind == "b":
        return x != 0
    if kind:
        # a small integer: wraps around
        x, n = sx_call("int", builtins.int, (x,), {}), 1 << 8 * builtins.int(kind[1])
        return x % n if kind[0] == "u" else (x + n // 2) % n - n // 2
    return x


class SymArr(_np.ndarray):
    """an object array holding symbolic values; astype keeps them symbolic; kind: that of the array it stands for"""
    kind = None

    def __array_finalize__(self, obj):
        # views of the array stand for the same kind; the results of operations are re-created by numpy and do not
        self.kind = getattr(obj, "kind", None) if obj is not None and self.base is not None else None

    def __setitem__(self, i, value):
        if self.kind is not None:
            if isinstance(value, (_np.ndarray, list, tuple)):
                value = _objarray(value) if not isinstance(value, _np.ndarray) else value.copy()
                if value.dtype != object:
                    value = value.astype(object)
                for j in _np.ndindex(*value.shape):
                    _np.ndarray.__setitem__(value, j, _cast(value[j], self.kind))
            else:
                value = _cast(value, self.kind)
        _np.ndarray.__setitem__(self, i, value)

    def __array_wrap__(self, out, context=None):
        if out.shape == ():
            return out[()]  # reductions of a plain array give a scalar
        return _np.ndarray.__array_wrap__(self, out, context)

    def __eq__(self, o):
        return self._cmp(o, True)

    def __ne__(self, o):
        return self._cmp(o, False)

    __hash__ = None

    def _cmp(self, o, want):
        if builtins.type(o) is v.SymStr or isinstance(o, str):
            # numpy would take a stand-in for a string as a sequence of characters
            out = _np.empty(self.shape, dtype=bool)
            for i in _np.ndindex(*self.shape):
                out[i] = bool(self[i] == o) == want
            return out
        return _np.ndarray.__eq__(self, o) if want else _np.ndarray.__ne__(self, o)

    def astype(self, dtype, *a, **k):
        if not any(v.is_sym(x) for x in self.flat):
            return _np.asarray(self).astype(dtype, *a, **k)
        out = _np.empty(self.shape, dtype=object).view(SymArr)
        kind = _kind_of(dtype)
        for i in _np.ndindex(*self.shape):
            _np.ndarray.__setitem__(out, i, _cast(self[i], kind))
        out.kind = kind
        return out


def _shape(o):
    if isinstance(o, _np.ndarray):
        return o.shape
    if builtins.type(o) in (list, tuple):
        if not o:
            return (0,)
        inner = {_shape(x) for x in o}
        if len(inner) == 1:
            return (len(o),) + inner.pop()
        return (len(o),)
    return ()


def _objarray(obj):
    """np.array of nested lists without numpy inspecting the symbolic leaves"""
    shape = _shape(obj)
    a = _np.empty(shape, dtype=object).view(SymArr)

    def fill(idx, o):
        if len(idx) == len(shape):
            a[idx] = o
            return
        for i in range(shape[len(idx)]):
            fill(idx + (i,), o[i])
    if shape:
        fill((), obj)
    else:
        a[()] = obj
    return a


def _mkarr(items):
    if any(v.is_sym(x) for x in items):
        return _objarray(list(items))
    return _np.array([float(x) if not isinstance(x, int) else x for x in items])


def _perm(n):
    """a permutation of range(n): Fisher-Yates over nondeterministic integers"""
    idx = list(range(n))
    for i in range(n - 1, 0, -1):
        j = int(Draws.integer(0, i))
        idx[i], idx[j] = idx[j], idx[i]
    return idx


def _shuffle(x):
    p = _perm(len(x))
    items = [x[i] for i in range(len(x))]
    for k, i in enumerate(p):
        x[k] = items[i]


def np_items(a):
    """the items numpy would choose from"""
    if any(v.is_sym(x) for x in a):
        return list(a)
    arr = a if isinstance(a, _np.ndarray) else _np.asarray(list(a))
    return arr.tolist() if arr.ndim == 1 else list(arr)


class NpRandom:
    def __getattr__(self, name):
        raise _e.Inconclusive("np.random.%s is not modelled" % name)

    def seed(self, *a):
        CTX.events.append(("np.seed",) + a)

    def random(self, size=None):
        return _many(size, Draws.unit)

    random_sample = sample = ranf = random

    def rand(self, *dims):
        return _many(dims if dims else None, Draws.unit)

    def uniform(self, low=0.0, high=1.0, size=None):
        return _many(size, lambda: Draws.real(low, high))

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        return _many(size, lambda: Draws.integer(low, high - 1))

    def shuffle(self, x):
        _shuffle(x)

    def permutation(self, x):
        x = list(range(int(x))) if isinstance(x, int) else list(x)
        _shuffle(x)
        return _mkarr(x)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise _e.Inconclusive("np.random.choice with probabilities is not modelled")
        a = list(range(int(a))) if isinstance(a, int) else a
        if len(a) == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is not None and not replace:
            n = int(size)
            return _mkarr([a[i] for i in _perm(len(a))[:n]])
        return _many(size, lambda: Draws.pick(np_items(a)))


class PyRandom:
    def __getattr__(self, name):
        raise _e.Inconclusive("random.%s is not modelled" % name)

    Random = _random.Random

    def seed(self, *a, **k):
        pass

    def random(self):
        return Draws.unit()

    def uniform(self, a, b):
        return Draws.real(a, b)

    def randint(self, a, b):
        return Draws.integer(a, b)

    def randrange(self, a, b=None, step=1):
        a, b = (0, a) if b is None else (a, b)
        n = len(range(a, b, step))
        return a + step * int(Draws.integer(0, n - 1))

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return Draws.pick(seq)

    def choices(self, seq, k=1, **kw):
        return [self.choice(seq) for _ in range(k)]

    def shuffle(self, x):
        _shuffle(x)

    def sample(self, seq, k):
        seq = list(seq)
        return [seq[i] for i in _perm(len(seq))[:k]]


NPRANDOM, PYRANDOM = NpRandom(), PyRandom()


# ------------------------------------------------------------------ numpy
def _has_sym(x, depth=0):
    if v.is_sym(x):
        return True
    if depth < 5 and builtins.type(x) in (list, tuple):
        return any(_has_sym(y, depth + 1) for y in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(v.is_sym(y) for y in x.flat)
    return False


class NpShim:
    random = NPRANDOM

    def __getattr__(self, name):
        f = getattr(_np, name)
        if isinstance(f, (builtins.type, _np.ufunc)) or not callable(f):
            return f

        def call(*a, **k):
            # lists with symbolic items become arrays of them
            return f(*[_objarray(x) if builtins.type(x) in (list, tuple) and _has_sym(x) else x for x in a], **k)
        return call

    @staticmethod
    def _filled(shape, value, kind):
        a = _np.empty(shape, dtype=object).view(SymArr)
        a.kind = kind
        a[...] = value
        return a

    def zeros(self, shape, dtype=float, **kw):
        k = _kind_of(dtype)
        return _np.zeros(shape, dtype, **kw) if k is None else self._filled(shape, 0, k)

    def ones(self, shape, dtype=float, **kw):
        k = _kind_of(dtype)
        return _np.ones(shape, dtype, **kw) if k is None else self._filled(shape, 1, k)

    def empty(self, shape, dtype=float, **kw):
        return self.zeros(shape, dtype, **kw)

    def full(self, shape, fill_value, dtype=None, **kw):
        if dtype is None and not _has_sym(fill_value):
            dtype = _np.asarray(fill_value).dtype
        k = _kind_of(dtype)
        if k is None and not _has_sym(fill_value):
            return _np.full(shape, fill_value, dtype, **kw)
        return self._filled(shape, fill_value, k)

    def _like(self, a, dtype):
        if dtype is not None:
            return dtype
        k = getattr(a, "kind", None)
        return _dtype_of(k) if k else None if _has_sym(a) else _np.asarray(a).dtype

    def zeros_like(self, a, dtype=None, **kw):
        return self.zeros(_np.shape(a), self._like(a, dtype))

    def ones_like(self, a, dtype=None, **kw):
        return self.ones(_np.shape(a), self._like(a, dtype))

    def full_like(self, a, fill_value, dtype=None, **kw):
        return self.full(_np.shape(a), fill_value, self._like(a, dtype))

    def array(self, obj, dtype=None, **kw):
        if _has_sym(obj):
            a = _objarray(obj)
            return a if dtype is None else a.astype(dtype)
        return _np.array(obj, dtype=dtype, **kw)

    def asarray(self, obj, dtype=None, **kw):
        if _has_sym(obj):
            a = _objarray(obj)
            return a if dtype is None else a.astype(dtype)
        return _np.asarray(obj, dtype=dtype, **kw)

    def pad(self, arr, width, mode="constant", **kw):
        if _has_sym(arr):
            arr = arr if isinstance(arr, _np.ndarray) else _objarray(arr)
        cv = kw.get("constant_values", 0)
        if mode == "constant" and _np.ndim(arr) == 1 and (_has_sym(arr) or _has_sym(cv)):
            w = width if isinstance(width, (tuple, list)) else (width, width)
            w = w[0] if isinstance(w[0], (tuple, list)) else w
            w = (int(w[0]), int(w[-1]))
            c = cv if isinstance(cv, (tuple, list)) else (cv, cv)
            return _objarray([c[0]] * w[0] + list(arr) + [c[-1]] * w[1])
        return _np.pad(arr, width, mode, **kw)

    def sum(self, a, *args, **kw):
        if _has_sym(a):
            a = _objarray(a)
            kind = _kind_of(kw.pop("dtype", None))
            r = _np.sum(a, *args, **kw)
            return r.view(SymArr).astype(_dtype_of(kind)) if isinstance(r, _np.ndarray) and kind else _cast(r, kind)
        return _np.sum(a, *args, **kw)

    def _each(self, f, a, g, *args):
        if not _has_sym(a):
            return g(a, *args)
        if v.is_sym(a):
            return f(a)
        a = a if isinstance(a, _np.ndarray) else _objarray(a)
        out = _np.empty(a.shape, dtype=object).view(SymArr)
        for i in _np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out

    def round(self, a, decimals=0, out=None):
        return self._each(lambda x: v.rounded(x, decimals), a, _np.round, decimals)

    around = round_ = round

    def rint(self, a):
        return self._each(lambda x: v.rounded(x, 0), a, _np.rint)

    def floor(self, a):
        return self._each(lambda x: float(_math.floor(x)) if not v.is_sym(x) else _cast(x.__floor__(), "f"), a, _np.floor)

    def ceil(self, a):
        return self._each(lambda x: float(_math.ceil(x)) if not v.is_sym(x) else _cast(x.__ceil__(), "f"), a, _np.ceil)

    def trunc(self, a):
        return self._each(lambda x: float(_math.trunc(x)) if not v.is_sym(x) else _cast(x.__trunc__(), "f"), a, _np.trunc)

    def base_repr(self, number, base=2, padding=0):
        if builtins.type(number) is v.SymInt:
            neg = bool(number < 0)
            s = v.sym_base_repr(abs(number), int(base))
            if padding:
                s = v.SymStr.of("0" * padding) + s
            return v.SymStr.of("-") + s if neg else s
        return _np.base_repr(number, base=base, padding=padding)

    def binary_repr(self, number, width=None):
        if builtins.type(number) is v.SymInt:
            s = v.sym_base_repr(abs(number), 2)
            return s if width is None else s.zfill(width)
        return _np.binary_repr(number, width)

    def sqrt(self, x, *a, **k):
        return usqrt(x) if _unint() or _has_sym(x) else _np.sqrt(x, *a, **k)

    def tanh(self, x, *a, **k):
        return uapply("tanh", x, _np.tanh) if not k and not a else _np.tanh(x, *a, **k)

    def exp(self, x, *a, **k):
        return uapply("exp", x, _np.exp) if not k and not a else _np.exp(x, *a, **k)

    def hypot(self, a, b):
        return usqrt(a * a + b * b) if v.is_sym(a) or v.is_sym(b) or _unint() else _np.hypot(a, b)

    def radians(self, x, *a, **k):
        return x * _math.pi / 180 if v.is_sym(x) else _np.radians(x, *a, **k)

    deg2rad = radians

    def sin(self, x, *a, **k):
        return uapply("sin", x, _np.sin)

    def cos(self, x, *a, **k):
        return uapply("cos", x, _np.cos)


# ------------------------------------------------------------------ math
def canon(t):
    return z3.simplify(t, som=True)


def _unint():
    return CTX is not None and CTX.uninterpreted_math


def _apply(name, t):
    """the uninterpreted function, with its range; the range is strict for tanh"""
    r = z3.Function("math_" + name, z3.RealSort(), z3.RealSort())(t)
    eng = _e.CURRENT
    if eng is not None:
        if name in ("sin", "cos"):
            eng.assume(z3.And(r >= -1, r <= 1))
        elif name == "tanh":
            eng.assume(z3.And(r > -1, r < 1))
        elif name == "exp":
            eng.assume(r > 0)
    return v.mkreal(r)


def uapply(name, x, real):
    if isinstance(x, _np.ndarray):
        if not _has_sym(x) and not _unint():
            return real(x)
        out = _np.empty(x.shape, dtype=object).view(SymArr)
        for i in _np.ndindex(*x.shape):
            out[i] = uapply(name, x[i], real)
        return out
    if isinstance(x, (list, tuple)):
        return uapply(name, _objarray(list(x)), real)
    if not v.is_sym(x) and not _unint():
        return real(x)
    # the same uninterpreted function for concrete arguments
    return _apply(name, canon(v.as_real_term(x)))


def usqrt(x):
    if isinstance(x, (_np.ndarray, list, tuple)):
        x = x if isinstance(x, _np.ndarray) else _objarray(list(x))
        if not _has_sym(x) and not _unint():
            return _np.sqrt(x)
        out = _np.empty(x.shape, dtype=object).view(SymArr)
        for i in _np.ndindex(*x.shape):
            out[i] = usqrt(x[i])
        return out
    if not v.is_sym(x) and not _unint():
        return _math.sqrt(x)
    t = canon(v.as_real_term(x))
    if bool(v.mkbool(t < 0)):
        raise ValueError("math domain error")
    r = z3.Function("math_sqrt", z3.RealSort(), z3.RealSort())(t)
    if _e.CURRENT is not None:
        _e.CURRENT.assume(r >= 0)
    return v.mkreal(r)


class MathShim:
    def __getattr__(self, name):
        return getattr(_math, name)

    def sqrt(self, x):
        return usqrt(x)

    def sin(self, x):
        return uapply("sin", x, _math.sin)

    def cos(self, x):
        return uapply("cos", x, _math.cos)

    def tanh(self, x):
        return uapply("tanh", x, _math.tanh)

    def exp(self, x):
        return uapply("exp", x, _math.exp)

    def radians(self, x):
        return x * _math.pi / 180 if v.is_sym(x) else _math.radians(x)

    def hypot(self, a, b):
        if v.is_sym(a) or v.is_sym(b) or _unint():
            return usqrt(a * a + b * b)
        return _math.hypot(a, b)

    def dist(self, p, q):
        s = 0
        if not _has_sym(list(p)) and not _has_sym(list(q)) and not _unint():
            return _math.dist(p, q)
        for a, b in zip(p, q):
            s = s + (a - b) ** 2
        return usqrt(s)

    def floor(self, x):
        return x.__floor__() if v.is_sym(x) else _math.floor(x)

    def ceil(self, x):
        return x.__ceil__() if v.is_sym(x) else _math.ceil(x)


# ------------------------------------------------------------------ msgpack
class Packed(bytes):
    pass


def _pack(o):
    if v.is_sym(o):
        return o
    if o is None or builtins.type(o) in (bool, int, float, str, bytes):
        if builtins.type(o) is int and not (-2 ** 63 <= o < 2 ** 64):
            raise OverflowError("Integer value out of range")
        return o
    if isinstance(o, dict):
        return ("d", [(_pack(k), _pack(x)) for k, x in o.items()])
    if isinstance(o, (list, tuple)):
        return ("l", [_pack(x) for x in o])
    if isinstance(o, (bool, int, float, str, bytes)) and not hasattr(o, "dtype"):
        return o
    raise TypeError("can not serialize %r object" % builtins.type(o).__name__)


def _unpack(p, strict, use_list, is_key=False):
    if builtins.type(p) is tuple:
        if p[0] == "l":
            items = [_unpack(x, strict, use_list) for x in p[1]]
            return items if use_list else tuple(items)
        d = {}
        for k, x in p[1]:
            k = _unpack(k, strict, use_list, True)
            if strict and not isinstance(k, (str, bytes)):
                raise ValueError("%s is not allowed for map key when strict_map_key=True" % builtins.type(k).__name__)
            d[k] = _unpack(x, strict, use_list)
        return d
    return p


class MsgpackShim:
    def __getattr__(self, name):
        return getattr(_msgpack, name)

    def packb(self, o, **kw):
        if kw:   # options other than the defaults: the real msgpack on concrete values
            return _msgpack.packb(_concrete(o), **kw)
        if not _deep_sym(o):
            return _msgpack.packb(o)
        p = Packed(b"\x80packed")
        p.tree = _pack(o)
        return p

    dumps = packb

    def unpackb(self, packed, **kw):
        if builtins.type(packed) is Packed:
            if set(kw) - {"strict_map_key", "use_list", "raw"} or kw.get("raw"):
                return _msgpack.unpackb(_msgpack.packb(_concrete(_unpack(packed.tree, False, True))), **kw)
            return _unpack(packed.tree, kw.get("strict_map_key", True), kw.get("use_list", True))
        return _msgpack.unpackb(packed, **kw)

    loads = unpackb


def _concrete(o):
    if v.is_sym(o):
        t = builtins.type(o)
        return builtins.bool(o) if t is v.SymBool else float(o) if t is v.SymReal else o._conc()
    if isinstance(o, dict):
        return {_concrete(k): _concrete(x) for k, x in o.items()}
    if isinstance(o, (list, tuple)):
        return builtins.type(o)([_concrete(x) for x in o]) if builtins.type(o) in (list, tuple) else o
    return o


def _deep_sym(o):
    if v.is_sym(o):
        return True
    if isinstance(o, dict):
        return any(_deep_sym(k) or _deep_sym(x) for k, x in o.items())
    if isinstance(o, (list, tuple)):
        return any(_deep_sym(x) for x in o)
    return False


SHIMS = {"numpy": NpShim(), "math": MathShim(), "random": PYRANDOM, "msgpack": MsgpackShim()}


# ------------------------------------------------------------------ call-site hooks used by sx.loader
def sx_call(name, real, args, kw):
    if args:
        x = args[0]
        t = builtins.type(x)
        sym = t is v.SymInt or t is v.SymBool or t is v.SymReal or t is v.SymStr
        if name == "type" and len(args) == 1 and sym:
            return x.__class__
        if sym:
            if name == "str" and len(args) == 1:
                return v.sym_str(x)
            if name in ("repr", "ascii") and t is v.SymInt:
                return v.sym_str(x)
            if name == "format":
                r = _format(x, args[1] if len(args) > 1 else "")
                if r is not None:
                    return r
            if name == "int":
                r = v.sym_int(x, *args[1:], **kw)
                if r is not None:
                    return r
            if name == "float":
                if t is v.SymReal:
                    return x
                if t in (v.SymInt, v.SymBool):
                    return v.mkreal(v.as_real_term(x))
            if name == "bool":
                return x if t is v.SymBool else bool(x)
            if name == "bin" and t is v.SymInt:
                neg = bool(x < 0)
                return v.SymStr.of("-0b" if neg else "0b") + v.SymStr.of(v.sym_base_repr(abs(x), 2))
            if name == "ord" and t is v.SymStr:
                return v.mkint(x.cs[0]) if not isinstance(x.cs[0], int) else x.cs[0]
            if name == "round" and t is v.SymInt and len(args) == 1:
                return x
    if name == "sum" and args and len(args) + len(kw) <= 2 and builtins.type(args[-1] if len(args) == 2 else kw.get("start", 0)) is not str:
        # the builtin's fast path for floats cannot hold symbolic items; same left-to-right meaning
        items = list(args[0])
        start = args[1] if len(args) == 2 else kw.get("start", 0)
        if v.is_sym(start) or any(v.is_sym(i) for i in items):
            s = start
            for i in items:
                s = s + i
            return s
        return builtins.sum(items, start)
    if name == "hash" and len(args) == 1 and not kw:
        return _hash_of(args[0])
    return real(*args, **kw)


class _HashTuple(tuple):
    """The hash of a tuple with symbolic items: equal exactly if the hashes of the items are (collisions of the mixing
    function of tuples, which are out of reach of small values, are left out)."""


def _hash_of(x):
    t = builtins.type(x)
    if t is v.SymInt:   # the hash of a small int is the int itself, except that -1 stands for an error
        return v.mkint(z3.If(x.e == -1, z3.IntVal(-2), x.e), None, None, x.opaque)
    if t is v.SymStr:
        return x
    if t in (tuple, _HashTuple) and _deep_sym(x):
        return _HashTuple([_hash_of(y) for y in x])
    if t is frozenset and any(_deep_sym(y) for y in x):
        return frozenset([_hash_of(y) for y in x])
    return builtins.hash(x)


def sx_is(a, b):
    """Identity: equal integers are one object only if they are the same value or in CPython's cache of small integers."""
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if builtins.type(x) is v.SymInt and builtins.type(y) in (v.SymInt, int):
            return builtins.bool(x == y) and builtins.bool(x >= -5) and builtins.bool(x <= 256)
        if builtins.type(x) is v.SymBool and builtins.type(y) in (v.SymBool, bool):
            return builtins.bool(x) is builtins.bool(y)
    return False


def sx_join(sep, arg):
    if isinstance(sep, str):
        return v.sx_join(sep, arg)
    return sep.join(arg)


_SPEC = re.compile(r"(0?)([1-9][0-9]*)?([bdso]?)$")


def _format(x, spec):
    """format() of a symbolic value as terms, for the plain specifications"""
    if isinstance(spec, v.SymStr) or builtins.type(spec) is not str:
        return None
    m = _SPEC.match(spec)
    t = builtins.type(x)
    if _e.current().raise_depth:
        return "<symbolic>"
    if m is None or t is v.SymReal or (m[3] and (m[3] == "s") != (t is v.SymStr)):
        return None
    if t is v.SymStr:
        return None if m[1] else x.ljust(int(m[2] or 0))
    if t is v.SymBool:
        return None if spec else v.sym_str(x)
    if m[3] in ("b", "o"):
        s = v.SymStr.of(v.sym_base_repr(abs(x), 2 if m[3] == "b" else 8))
    else:
        s = v.SymStr.of(v.sym_str(abs(x)))
    sign = "-" if x < 0 else ""
    width = int(m[2] or 0)
    if m[1]:
        return v.SymStr.of(sign) + s.zfill(width - len(sign)) if sign else s.zfill(width)
    return (v.SymStr.of(sign) + s if sign else s).rjust(width)


def sx_template(template, *args, **kw):
    """"...".format(...)"""
    flat = list(args) + list(kw.values())
    if not any(_deep_sym(x) for x in flat):
        return template.format(*args, **kw)
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(template):
        parts.append(text)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if "{" in (spec or ""):
            return template.format(*args, **kw)
        value, _ = string.Formatter().get_field(field, args, kw)
        if conv:
            value = sx_call("repr" if conv != "s" else "str", repr if conv != "s" else str, (value,), {})
        parts.append(sx_call("format", format, (value, spec or ""), {}))
    return v.sx_join("", parts)


_PERCENT = re.compile(r"%(?:(%)|(0?[0-9]*)([dirs]))")


def sx_percent(template, right):
    """"..." % ..."""
    args = right if builtins.type(right) is tuple else (right,)
    if not any(v.is_sym(x) for x in args):
        return template % right
    if "%" in _PERCENT.sub("", template) or len([m for m in _PERCENT.finditer(template) if not m[1]]) != len(args):
        return template % right
    parts, at, n = [], 0, 0
    for m in _PERCENT.finditer(template):
        parts.append(template[at:m.start()])
        at = m.end()
        if m[1]:
            parts.append("%")
            continue
        x, n = args[n], n + 1
        s = None
        if builtins.type(x) is v.SymInt:
            s = _format(x, m[2])
        elif not m[2] and m[3] == "s":
            s = sx_call("str", str, (x,), {})
        if s is None:
            s = ("%" + m[2] + m[3]) % x
        parts.append(s)
    return v.sx_join("", parts + [template[at:]])


def sx_quiet(f):
    """Evaluate a message (of an exception or assertion): symbolic values print as a placeholder there."""
    eng = _e.CURRENT
    if eng is None:
        return f()
    eng.raise_depth += 1
    try:
        return f()
    finally:
        eng.raise_depth -= 1


def sx_import(name):
    return SHIMS[name]


# ------------------------------------------------------------------ replay on the plain code
def patch_rng():
    """Route numpy.random/random through the draws of the running ConcreteCtx (outside of a replay: the originals)."""
    import numpy.random as nr
    import random as pr

    def patch(mod, stand_in, names):
        for n in names:
            orig = getattr(mod, n)

            def mk(n, orig):
                def f(*a, **k):
                    if CTX is None:
                        return orig(*a, **k)
                    return getattr(stand_in, n)(*a, **k)
                return f
            setattr(mod, n, mk(n, orig))
    patch(nr, NPRANDOM, ["seed", "random", "random_sample", "sample", "ranf", "rand", "uniform", "randint", "shuffle",
                         "permutation", "choice"])
    patch(pr, PYRANDOM, ["seed", "random", "uniform", "randint", "randrange", "choice", "choices", "shuffle", "sample"])
