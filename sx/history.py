"""What a process did before: every harness of the property is run once on concrete values, unchecked, before the exploration
starts, so that state the package keeps between calls is not empty; and that state is put back after every path, so that
the paths do not see each other."""
import builtins
import functools
import signal
import sys
import types
import zlib

from . import ctx as c

SECONDS = 3


class Done(BaseException):
    pass


class PreludeCtx(c.ConcreteCtx):
    """Arbitrary (fixed) values for everything a harness asks for; checks and assumptions are not made."""

    def __init__(self, ntm, params, salt):
        c.ConcreteCtx.__init__(self, ntm, params, {"inputs": {}, "fns": {}})
        self.salt = salt

    def _pick(self, name, n):
        return zlib.crc32(("%s/%d" % (name, self.salt)).encode()) % n

    def int(self, name, lo=None, hi=None, opaque=False):
        name = self._name(name)
        if lo is None:
            lo = 0 if hi is None else hi - 2
        return lo + self._pick(name, min(3, hi - lo + 1) if hi is not None else 3)

    def bool(self, name):
        return self._pick(self._name(name), 2) == 1

    def real(self, name, lo=None, hi=None, open_hi=False, open_lo=False):
        lo = 0.0 if lo is None and (hi is None or hi > 0) else lo if lo is not None else hi - 1.0
        w = 1.0 if hi is None else hi - lo
        return float(lo + w * (1 + self._pick(self._name(name), 3)) / 5)

    def fn(self, name, nargs, lo=None, hi=None, opaque=False):
        lo_ = lo if lo is not None else 0
        n = 3 if hi is None else min(3, hi - lo_ + 1)
        return lambda *args: lo_ + self._pick("%s%r" % (name, tuple(builtins.int(a) for a in args)), n)

    def _rand_real(self, lo, hi, open_hi=False):
        self.used_rand += 1
        return float(lo + (hi - lo) * self._pick("rand%d" % self.used_rand, 97) / 97)

    def _rand_int(self, lo, hi):
        self.used_rand += 1
        return lo + self._pick("rand%d" % self.used_rand, hi - lo + 1)

    def assume(self, cond):
        pass

    def check(self, label, cond, detail=None):
        pass


def preludes(ntm, harnesses):
    from . import env

    def stop(*a):
        raise Done()
    old = signal.signal(signal.SIGALRM, stop)
    out = []
    try:
        for h in harnesses:
            for salt in (0, 1):
                params = {k: x for k, x in h.quick[-salt % len(h.quick)].items() if not k.startswith("_")}
                cx = PreludeCtx(ntm, params, salt)
                env.CTX = cx
                signal.setitimer(signal.ITIMER_REAL, SECONDS)
                try:
                    h.fn(cx, **params)
                    out.append((h.name, salt, "ok"))
                except BaseException as ex:  # noqa: whatever happens here is not judged
                    if isinstance(ex, KeyboardInterrupt):
                        raise
                    out.append((h.name, salt, "%s %s" % (type(ex).__name__, str(ex)[:100])))
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    env.CTX = None
    finally:
        signal.signal(signal.SIGALRM, old)
    return out


class Snapshot:
    """The mutable state reachable from the modules, classes and functions of the package."""

    def __init__(self, package="netomaton"):
        self.saved, self.seen, self.caches = [], set(), []
        self.package = package
        for name, m in sorted(sys.modules.items()):
            if m is not None and (name == package or name.startswith(package + ".")):
                self._add(m.__dict__, 0)

    def _ours(self, x):
        return str(getattr(x, "__module__", "") or "").split(".")[0] == self.package

    def _add(self, x, depth):
        if id(x) in self.seen or depth > 12:
            return
        if isinstance(x, dict):
            self.seen.add(id(x))
            self.saved.append((x, dict(x)))
            for y in list(x.values()):
                self._add(y, depth + 1)
        elif isinstance(x, (list, set)) or type(x).__name__ == "deque":
            self.seen.add(id(x))
            self.saved.append((x, list(x)))
            for y in list(x):
                self._add(y, depth + 1)
        elif isinstance(x, tuple):
            for y in x:
                self._add(y, depth + 1)
        elif isinstance(x, type):
            if self._ours(x):
                self.seen.add(id(x))
                self.saved.append((x, dict(vars(x))))
                for y in list(vars(x).values()):
                    self._add(y, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            self._add(x.__func__, depth)
        elif isinstance(x, property):
            for f in (x.fget, x.fset):
                if f is not None:
                    self._add(f, depth + 1)
        elif isinstance(x, types.FunctionType):
            if self._ours(x):
                self.seen.add(id(x))
                self._add(x.__dict__, depth + 1)
                for y in (x.__defaults__ or ()):
                    self._add(y, depth + 1)
                for y in (x.__kwdefaults__ or {}).values():
                    self._add(y, depth + 1)
                for cell in (x.__closure__ or ()):
                    try:
                        y = cell.cell_contents
                    except ValueError:
                        continue
                    self.saved.append((cell, y))
                    self._add(y, depth + 1)
        elif type(x) is functools._lru_cache_wrapper:
            self.caches.append(x)
            self._add(x.__wrapped__, depth)
        elif type(x).__module__.split(".")[0] in (self.package, "weakref", "collections") \
                and isinstance(getattr(x, "__dict__", None), dict):
            self.seen.add(id(x))
            self._add(x.__dict__, depth + 1)

    def restore(self):
        for x, old in self.saved:
            if isinstance(x, dict):
                if len(x) != len(old) or any(k not in x or x[k] is not y for k, y in old.items()):
                    dict.clear(x)
                    dict.update(x, old)
            elif isinstance(x, type):
                now = vars(x)
                if len(now) != len(old) or any(now.get(k) is not y for k, y in old.items()):
                    for k in [k for k in now if k not in old]:
                        delattr(x, k)
                    for k, y in old.items():
                        if now.get(k) is not y:
                            setattr(x, k, y)
            elif isinstance(x, types.CellType):
                x.cell_contents = old
            elif isinstance(x, set):
                if len(x) != len(old):
                    x.clear()
                    x.update(old)
            else:
                if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                    x.clear()
                    x.extend(old)
        for f in self.caches:
            f.cache_clear()
