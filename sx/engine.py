"""Bounded symbolic execution of real Python code, decided by z3.

The code under test runs unchanged (apart from the call-site hooks of sx.loader) on symbolic values (sx.values).
Whenever Python needs a concrete truth value of a symbolic condition the engine asks z3 which outcomes are feasible under
the current path condition, takes one and schedules the other: re-execution from the start with a recorded decision
prefix explores *every* feasible path (depth first).  At an assertion the negated property is given to z3 under the path
condition of that path: unsat on every path means the assertion holds for all values of the symbolic inputs, sat gives a
concrete counterexample, which the caller replays on the plain, unhooked code.
"""
import signal
import time

from .z3load import z3


class Control(BaseException):
    """Base class of the exceptions that steer paths (BaseException: code under test must not swallow them)."""


class PathInfeasible(Control):
    pass


class Inconclusive(Control):
    pass


class PathTimeout(Control):
    pass


class StopPath(Control):
    """A violation was recorded on this path: stop executing it."""


class _Decision:
    __slots__ = ("kind", "cond", "value", "alt", "alt_model", "pushed")

    def __init__(self, kind, cond, value, alt, alt_model, pushed):
        self.kind, self.cond, self.value = kind, cond, value
        self.alt, self.alt_model, self.pushed = alt, alt_model, pushed


CURRENT = None  # the engine that is executing a path


def current():
    if CURRENT is None:
        raise RuntimeError("a symbolic value was used outside of a symbolic path")
    return CURRENT


class Engine:
    def __init__(self, max_paths=200000, query_ms=20000, path_seconds=60, deadline=None):
        self.max_paths, self.query_ms, self.path_seconds, self.deadline = max_paths, query_ms, path_seconds, deadline
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_ms)
        self.trail = []
        self.pos = 0
        self.level_assumes = []
        self.model = None
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.asserts = 0          # assertions decided
        self.asserts_solver = 0   # ... of which needed a solver query on symbolic terms
        self.reached = {}         # assertion label -> number of feasible paths that reached it
        self.violations = []
        self.samples = []
        self.raise_depth = 0

    # ---- solver ----
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _feasible(self, cond):
        """-> (bool, model) for path condition & cond"""
        self.solver.push()
        self.solver.add(cond)
        try:
            ok = self._check()
            return ok, (self.solver.model() if ok else None)
        finally:
            self.solver.pop()

    def _holds_in_model(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, cond):
        self.solver.push()
        self.solver.add(cond)

    # ---- decisions ----
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "b" or not d.cond.eq(cond):
                raise Inconclusive("re-execution diverged: %s vs %s" % (d.cond, cond))
            self.pos += 1
            return d.value
        self._tick()
        side = self._holds_in_model(cond)
        if side is None:
            ok, m = self._feasible(cond)
            if ok:
                self.model, side = m, True
            else:
                side = False
        neg = z3.Not(cond)
        ok, m = self._feasible(neg if side else cond)
        if ok:
            self._push(cond if side else neg)
            self.trail.append(_Decision("b", cond, side, True, m, True))
        else:
            self.trail.append(_Decision("b", cond, side, False, None, False))
        self.pos += 1
        self.decisions += 1
        return side

    def concretize(self, expr):
        """Pick the concrete value of an integer term; every other feasible value is explored on another path."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        while True:
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                if d.kind != "c":
                    raise Inconclusive("re-execution diverged at a concretisation")
                v = d.cond[1]
                self.pos += 1
                if d.value:
                    return v
                continue
            self._tick()
            if self.model is None:
                ok, self.model = self._feasible(z3.BoolVal(True))
                if not ok:
                    raise PathInfeasible()
            v = self.model.eval(expr, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else int(str(v))
            cond = expr == v
            ok, m = self._feasible(z3.Not(cond))
            if ok:
                self._push(cond)
            self.trail.append(_Decision("c", (cond, v), True, ok, m, ok))
            self.pos += 1
            self.decisions += 1
            return v

    def assume(self, cond):
        """Assumptions are re-added on every execution, at the level of the decisions that precede them."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a" or not d.cond.eq(cond):
                raise Inconclusive("re-execution diverged at an assumption")
            self.pos += 1
            return
        side = self._holds_in_model(cond)
        if side is not True:
            ok, m = self._feasible(cond)
            if not ok:
                raise PathInfeasible()
            self.model = m
        self._push(cond)
        self.trail.append(_Decision("a", cond, True, False, None, True))
        self.pos += 1

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget of this harness is used up after %d paths" % self.paths)

    def prove(self, label, cond):
        """Decide an assertion under the path condition.  None: holds; otherwise a model."""
        self.asserts += 1
        if cond is True:
            return None
        if cond is False:
            return self.path_model()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return None
        self.asserts_solver += 1
        side = self._holds_in_model(cond)
        if side is False:
            return self.model
        ok, m = self._feasible(z3.Not(cond))
        return m if ok else None

    def path_model(self):
        """A model of the current path condition (which must be satisfiable)."""
        if self.model is None or self.pos < len(self.trail):
            ok, m = self._feasible(z3.BoolVal(True))
            if not ok:
                raise PathInfeasible()
            self.model = m
        return self.model

    # ---- exploration ----
    def _backtrack(self):
        while self.trail:
            d = self.trail.pop()
            if d.pushed:
                self.solver.pop()
            if d.alt:
                if d.kind == "b":
                    c = z3.Not(d.cond) if d.value else d.cond
                    self._push(c)
                    self.trail.append(_Decision("b", d.cond, not d.value, False, None, True))
                else:
                    self._push(z3.Not(d.cond[0]))
                    self.trail.append(_Decision("c", d.cond, False, False, None, True))
                self.model = d.alt_model
                return True
        return False

    def explore(self, run):
        """run() executes one path; called until the decision tree is exhausted."""
        global CURRENT

        def on_alarm(sig, frame):
            raise PathTimeout()

        old = signal.signal(signal.SIGALRM, on_alarm)
        try:
            while True:
                self._tick()
                if self.paths >= self.max_paths:
                    raise Inconclusive("more than %d paths" % self.max_paths)
                self.pos = 0
                self.raise_depth = 0
                CURRENT = self
                signal.setitimer(signal.ITIMER_REAL, self.path_seconds, 5)  # again later: a raise inside a __del__ is lost
                try:
                    run()
                    if self.pos < len(self.trail):
                        raise Inconclusive("re-execution diverged: it ended before its recorded decisions")
                    self.paths += 1
                except PathInfeasible:
                    self.infeasible += 1
                except StopPath:
                    self.paths += 1
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    CURRENT = None
                if not self._backtrack():
                    return
        finally:
            signal.signal(signal.SIGALRM, old)
