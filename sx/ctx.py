"""The context a harness talks to.  The same harness code runs in two modes:

SymCtx       inputs are symbolic, checks are decided by the solver for all values on the current path
ConcreteCtx  inputs are the values of a counterexample (or of a sampled path), the code under test is the plain package
"""
import builtins
import itertools
from fractions import Fraction

from . import values as v


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label)
        self.label, self.detail = label, detail


class Skip(BaseException):
    """concrete mode: an assumption of the harness does not hold for these values"""


def _enc(x):
    if isinstance(x, Fraction):
        return {"frac": [x.numerator, x.denominator]}
    return x


def _dec(x):
    if isinstance(x, dict) and "frac" in x:
        return Fraction(x["frac"][0], x["frac"][1])
    return x


def z3_value(val):
    """a Python number for a z3 value"""
    from .z3load import z3
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        f = val.as_fraction()
        return Fraction(f.numerator, f.denominator)
    if z3.is_algebraic_value(val):
        f = val.approx(30).as_fraction()
        return Fraction(f.numerator, f.denominator)
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    return int(str(val))


class _Base:
    uninterpreted_math = False

    def __init__(self, ntm, params):
        self.ntm, self.params = ntm, params
        self.events = []
        self._n = {}
        self.trace = []          # labels checked on this path, in order
        self.policy = None       # policy(k, kind, lo, hi): a value for the k-th random draw, or None for an arbitrary one
        self.ndraw = 0
        self.draws = []          # what every draw returned: (kind, lo, hi, value)

    def _name(self, name):
        k = self._n.get(name, 0)
        self._n[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    # ---- random draws ----
    def draw(self, kind, lo, hi, open_hi=False):
        k, self.ndraw = self.ndraw, self.ndraw + 1
        x = None if self.policy is None else self.policy(k, kind, lo, hi)
        if x is None:
            x = self._rand_real(lo, hi, open_hi) if kind == "real" else self._rand_int(lo, hi)
        self.draws.append((kind, lo, hi, x))
        return x

    def scripted(self, units):
        """Policy: the coming draws are these fractions (0 <= u < 1) of their ranges, then the lowest outcomes."""
        it = iter(units)

        def policy(k, kind, lo, hi):
            u = next(it, 0)
            if kind == "real":
                return lo + (hi - lo) * float(u)
            return lo + builtins.int(u * (hi - lo + 1))
        self.policy = policy

    def first_draws(self, n, units=()):
        """Policy: the first n draws are arbitrary, the later ones the given fractions of their ranges (cyclically)."""
        it = itertools.cycle(list(units) or [0])

        def policy(k, kind, lo, hi):
            if k < n:
                return None
            u = next(it)
            return lo + (hi - lo) * float(u) if kind == "real" else lo + builtins.int(u * (hi - lo + 1))
        self.policy = policy

    # ---- shared conveniences ----
    def ints(self, name, n, lo=None, hi=None):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool("%s%d" % (name, i)) for i in range(n)]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def choice(self, name, options):
        """One of a list of (arbitrary) values; each is explored on its own paths."""
        options = list(options)
        return options[int(self.int(name, 0, len(options) - 1))]

    def flag(self, name):
        """A boolean decided right away (each value explored on its own paths)."""
        return builtins.bool(self.bool(name))

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.flag("%s%d" % (name, i))]

    def distinct(self, xs):
        for a, b in itertools.combinations(list(xs), 2):
            self.assume(a != b)

    def eq(self, label, a, b):
        self.check(label, v.deep_eq(a, b), (a, b))

    def all(self, label, conds, detail=None):
        self.check(label, v.conj([v.cond_term(c) for c in conds]), detail)

    def raises(self, label, f, exc=Exception):
        """f() must raise exc"""
        try:
            f()
        except exc:
            self.check(label, True)
            return
        self.check(label, False, "no exception was raised")

    def unreachable(self, label):
        self.check(label, False)


class SymCtx(_Base):
    symbolic = True

    def __init__(self, engine, ntm, params, narrow=None):
        from .z3load import z3
        from . import env
        _Base.__init__(self, ntm, params)
        self.math = env.SHIMS["math"]
        self.z3, self.engine, self.narrow = z3, engine, narrow
        self.inputs = {}     # name -> term
        self.fns = {}        # name -> [(arg terms, result term)]
        self.nrand = 0
        self._fn_cache = {}

    # ---- inputs ----
    def int(self, name, lo=None, hi=None, opaque=False):
        name = self._name(name)
        if lo is not None and lo == hi and not opaque:
            self.inputs[name] = self.z3.IntVal(lo)
            return lo
        c = self.z3.Int(name)
        self.inputs[name] = c
        conds = []
        if self.narrow is not None and not opaque:
            # fallback: the code could not be executed on terms; enumerate a narrowed range instead
            w = self.narrow
            a = lo if lo is not None else (hi - w if hi is not None else -(w // 2))
            b = hi if hi is not None and hi - a <= w else a + w
            conds = [c >= a, c <= b]
            self.engine.assume(self.z3.And(conds))
            return self.engine.concretize(c)
        if lo is not None:
            conds.append(c >= lo)
        if hi is not None:
            conds.append(c <= hi)
        if conds:
            self.engine.assume(self.z3.And(conds))
        if self.narrow is not None:
            return self.engine.concretize(c)
        return v.SymInt(c, lo, hi, opaque)

    def opaque(self, name, lo=0, hi=None):
        return self.int(name, lo, hi, opaque=True)

    def bool(self, name):
        name = self._name(name)
        c = self.z3.Bool(name)
        self.inputs[name] = c
        b = v.SymBool(c)
        return builtins.bool(b) if self.narrow is not None else b

    def real(self, name, lo=None, hi=None, open_hi=False, open_lo=False):
        name = self._name(name)
        c = self.z3.Real(name)
        self.inputs[name] = c
        conds = []
        if self.narrow is not None:
            self.inputs.pop(name)
            k = self.z3.Int(name)
            self.inputs[name] = self.z3.ToReal(k)
            a = lo if lo is not None else (hi - 2 if hi is not None else -1)
            import math as _m
            a = _m.floor(a) + 1 if open_lo else _m.ceil(a)
            b = a + self.narrow if hi is None else min(a + self.narrow, hi - 1e-9 if open_hi else hi)
            self.engine.assume(self.z3.And(k >= a, k <= v._frac(b)))
            return float(self.engine.concretize(k))
        if lo is not None:
            conds.append(c > v._frac(lo) if open_lo else c >= v._frac(lo))
        if hi is not None:
            conds.append(c < v._frac(hi) if open_hi else c <= v._frac(hi))
        if conds:
            self.engine.assume(self.z3.And(conds))
        return v.SymReal(c)

    def fn(self, name, nargs, lo=None, hi=None, opaque=False):
        """An arbitrary function of nargs integers to an integer in lo..hi (the same arguments give the same result)."""
        z3 = self.z3
        f = z3.Function(name, *([z3.IntSort()] * (nargs + 1)))
        apps = self.fns.setdefault(name, [])
        seen = {}

        def call(*args):
            terms = []
            for a in args:
                if isinstance(a, builtins.bool) and builtins.type(a) is not v.SymBool:
                    a = builtins.int(a)
                terms.append(v.as_int_term(a)[0])
            r = f(*terms)
            key = r.get_id()
            if key in seen:
                return seen[key][1]
            apps.append((terms, r))
            if lo is not None or hi is not None:
                cs = ([r >= lo] if lo is not None else []) + ([r <= hi] if hi is not None else [])
                self.engine.assume(z3.And(cs))
            out = v.SymInt(r, lo, hi, opaque)
            if self.narrow is not None:
                if lo is None or hi is None:
                    self.engine.assume(z3.And(r >= (lo if lo is not None else 0), r <= (lo if lo is not None else 0) + 2))
                out = self.engine.concretize(r)
            seen[key] = (r, out)
            return out
        return call

    def _rand_real(self, lo, hi, open_hi=False):
        self.nrand += 1
        z3 = self.z3
        name = "rand%d" % (self.nrand - 1)
        c = z3.Real(name)
        self.inputs[name] = c
        if self.narrow is not None:
            k = z3.Int(name + "_step")
            self.inputs[name] = z3.ToReal(k) / 4 * v._frac(hi - lo) + v._frac(lo)
            self.engine.assume(z3.And(k >= 0, k <= 3))
            return lo + (hi - lo) * self.engine.concretize(k) / 4
        l, h = v.as_real_term(lo), v.as_real_term(hi)
        self.engine.assume(z3.And(c >= l, c < h if open_hi else c <= h))
        return v.SymReal(c)

    def _rand_int(self, lo, hi):
        self.nrand += 1
        name = "rand%d" % (self.nrand - 1)
        lo_t, hi_t = v.as_int_term(lo), v.as_int_term(hi)
        c = self.z3.Int(name)
        self.inputs[name] = c
        self.engine.assume(self.z3.And(c >= lo_t[0], c <= hi_t[0]))
        if lo_t[1] is not None and lo_t[1] == hi_t[2]:
            return lo_t[1]
        if self.narrow is not None:
            return self.engine.concretize(c)
        return v.SymInt(c, lo_t[1], hi_t[2])

    # ---- conditions ----
    def assume(self, cond):
        t = v.cond_term(cond)
        if isinstance(t, builtins.bool):
            t = self.z3.BoolVal(t)
        self.engine.assume(t)

    def ite(self, cond, a, b):
        t = v.cond_term(cond)
        if t is True:
            return a
        if t is False:
            return b
        ta, tb = v.as_int_term(a), v.as_int_term(b)
        if ta is not None and tb is not None:
            lo = None if ta[1] is None or tb[1] is None else min(ta[1], tb[1])
            hi = None if ta[2] is None or tb[2] is None else max(ta[2], tb[2])
            return v.mkint(self.z3.If(t, ta[0], tb[0]), lo, hi)
        return v.mkreal(self.z3.If(t, v.as_real_term(a), v.as_real_term(b)))

    def close(self, label, a, b):
        self.near(label, a, b, 0)

    def near(self, label, a, b, tol=1e-9):
        """a and b (numbers or nested lists) agree up to tol; 0: exactly, over the real numbers"""
        self.check(label, self._near(a, b, tol), (a, b))

    def _near(self, a, b, tol):
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b) or any(k not in b for k in a):
                return False
            return v.conj([v.cond_term(self._near(a[k], b[k], tol)) for k in a])
        a = a.tolist() if hasattr(a, "tolist") else a
        b = b.tolist() if hasattr(b, "tolist") else b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return v.conj([v.cond_term(self._near(x, y, tol)) for x, y in zip(a, b)])
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return v.deep_eq(a, b)
        if not v.is_sym(a) and not v.is_sym(b):
            return _close(a, b) if tol == 0 else abs(a - b) <= tol
        if tol == 0:
            return v.deep_eq(a, b)
        d = a - b
        return v.conj([v.cond_term(d <= tol), v.cond_term(d >= -tol)])

    def string(self, name, n, lo=97, hi=122):
        """A string of n arbitrary characters (a-z unless given) that are only compared with each other."""
        cs = [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]
        if any(builtins.type(c) is not v.SymInt for c in cs):
            return "".join(chr(c) for c in cs)
        return v.SymStr([c.e for c in cs], True)

    def letters(self, name, n, lo="a", hi="b"):
        """A string of n arbitrary characters in lo..hi."""
        cs = [self.int("%s%d" % (name, i), ord(lo), ord(hi)) for i in range(n)]
        if any(builtins.type(c) is not v.SymInt for c in cs):
            return "".join(chr(c) for c in cs)
        return v.SymStr([c.e for c in cs])

    def implies(self, a, b):
        a, b = v.cond_term(a), v.cond_term(b)
        if a is False or b is True:
            return True
        if a is True:
            return b
        return self.z3.Implies(a, self.z3.BoolVal(b) if isinstance(b, builtins.bool) else b)

    def either(self, *conds):
        ts = [v.cond_term(c) for c in conds]
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return self.z3.Or(ts) if ts else False

    def both(self, *conds):
        return v.conj([v.cond_term(c) for c in conds])

    def neg(self, c):
        t = v.cond_term(c)
        return (not t) if isinstance(t, builtins.bool) else self.z3.Not(t)

    def check(self, label, cond, detail=None):
        from . import engine as e
        eng = self.engine
        self.trace.append(label)
        eng.reached[label] = eng.reached.get(label, 0) + 1
        m = eng.prove(label, v.cond_term(cond))
        if m is not None:
            eng.violations.append({"label": label, "assignment": self.assignment(m)})
            raise e.StopPath()

    def assignment(self, m):
        out = {"inputs": {}, "fns": {}}
        for n, t in self.inputs.items():
            out["inputs"][n] = _enc(z3_value(m.eval(t, model_completion=True)))
        for n, apps in self.fns.items():
            tab = []
            for args, r in apps:
                tab.append([[z3_value(m.eval(a, model_completion=True)) for a in args],
                            z3_value(m.eval(r, model_completion=True))])
            out["fns"][n] = tab
        return out


class ConcreteCtx(_Base):
    symbolic = False

    def __init__(self, ntm, params, assignment):
        import math
        _Base.__init__(self, ntm, params)
        self.math = math
        self.a = assignment
        self.used_rand = 0
        self.missing = []
        self.checked = []

    def _get(self, name, default):
        d = self.a["inputs"]
        if name in d:
            return _dec(d[name])
        self.missing.append(name)
        return default

    def int(self, name, lo=None, hi=None, opaque=False):
        return builtins.int(self._get(self._name(name), lo if lo is not None else (hi if hi is not None else 0)))

    opaque_default = 0

    def opaque(self, name, lo=0, hi=None):
        return self.int(name, lo, hi)

    def bool(self, name):
        return builtins.bool(self._get(self._name(name), False))

    def real(self, name, lo=None, hi=None, open_hi=False, open_lo=False):
        return float(self._get(self._name(name), lo if lo is not None else 0))

    def fn(self, name, nargs, lo=None, hi=None, opaque=False):
        tab = {tuple(a): r for a, r in self.a["fns"].get(name, [])}
        default = lo if lo is not None else 0

        def call(*args):
            key = tuple(builtins.int(a) for a in args)
            return tab.get(key, default)
        return call

    def _rand_real(self, lo, hi, open_hi=False):
        name = "rand%d" % self.used_rand
        self.used_rand += 1
        return float(self._get(name, lo))

    def _rand_int(self, lo, hi):
        name = "rand%d" % self.used_rand
        self.used_rand += 1
        return builtins.int(self._get(name, lo))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def ite(self, cond, a, b):
        return a if cond else b

    def implies(self, a, b):
        return (not a) or builtins.bool(b)

    def either(self, *conds):
        return any(conds)

    def both(self, *conds):
        return all(conds)

    def neg(self, c):
        return not c

    def close(self, label, a, b):
        self.check(label, _close(a, b), (a, b))

    def near(self, label, a, b, tol=1e-9):
        self.check(label, _close(a, b, max(tol, 1e-9)), (a, b))

    def string(self, name, n, lo=97, hi=122):
        return "".join(chr(self.int("%s%d" % (name, i), lo, hi)) for i in range(n))

    def letters(self, name, n, lo="a", hi="b"):
        return "".join(chr(self.int("%s%d" % (name, i), ord(lo), ord(hi))) for i in range(n))

    def check(self, label, cond, detail=None):
        self.trace.append(label)
        self.checked.append(label)
        if not cond:
            raise CheckFailed(label, _short(detail))


def _short(x):
    try:
        s = repr(x)
    except Exception as e:  # noqa
        s = "<%s>" % type(e).__name__
    return s if len(s) < 600 else s[:600] + "..."


def _close(a, b, tol=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_close(a[k], b[k], tol) for k in a)
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_close(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
