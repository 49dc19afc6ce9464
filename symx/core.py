"""symx.core -- a small dynamic symbolic execution engine for Python code.

The code under test is the real, unmodified hatchet (imported from /repo).  It
is executed by CPython on proxy values (symx.proxies) that carry z3 terms.
Whenever the code under test needs the truth value of a symbolic condition,
`Ctx.decide` asks z3 which outcomes are feasible under the current path
condition; when both are, the path forks.  Paths are enumerated by re-execution
with a recorded decision prefix, so nothing of the interpreter state has to be
copied.  `Ctx.check` asks z3 for a model of  path-condition /\\ not property :
`unsat` discharges the obligation for every value on that path, `sat` yields a
counterexample that symx.run replays against the real code.
"""
import time

import z3

z3.set_param("verbose", 0)

SOLVER_TIMEOUT_MS = 60000


class EngineStop(BaseException):
    """Base of everything the engine throws through code under test."""


class AssumeFailed(EngineStop):
    """The current path contradicts an assumption of the harness."""


class Unsupported(EngineStop):
    """The code under test did something the proxies cannot represent."""


class Inconclusive(EngineStop):
    """The solver gave up."""


class Diverged(EngineStop):
    """Re-execution of a prefix took another turn (engine bug or hidden state)."""


class PathDone(EngineStop):
    """Harness asked to end this path (nothing further to check)."""


def _fp(expr):
    """Fingerprint of a decision.  simplify() orders the arguments of regular-
    expression unions by internal ids, which differ between processes."""
    if z3.is_app(expr) and expr.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
        return hash(expr.arg(0).sexpr())
    return expr.hash()


class Ctx:
    current = None

    def __init__(self, prefix=(), collect_queries=True):
        self.solver = z3.Solver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.pending = []
        self.known = {}
        self.keep = []
        self.model = None
        self.vars = {}
        self.queries = 0
        self.solver_time = 0.0
        self.ids = {}
        self.id_objs = []
        self.counter = 0
        self.n_checks = 0
        self.n_trivial = 0
        self.tokens = []

    # ---------------------------------------------------------------- solver
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_time += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive(self.solver.reason_unknown())
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise AssumeFailed()
            self.model = self.solver.model()
        return self.model

    def fresh(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            v = z3.Const(name, sort)
            self.vars[name] = v
        return v

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise AssumeFailed()
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise AssumeFailed()
        self.solver.add(expr)
        if self.model is not None:
            if not z3.is_true(self.model.eval(expr, model_completion=True)):
                self.model = None
        if self.pos >= len(self.prefix):
            self._ensure_model()

    def decide(self, expr):
        """Concrete truth value of expr on this path; forks when both are feasible."""
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        k = self.known.get(expr.get_id())
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            h, val = self.prefix[self.pos]
            if h != _fp(expr):
                raise Diverged("decision %d: %s" % (self.pos, expr))
            self.pos += 1
            self.model = None
        else:
            m = self._ensure_model()
            val = z3.is_true(m.eval(expr, model_completion=True))
            other = z3.Not(expr) if val else expr
            if self._check(other):
                self.pending.append(self.trail + [(_fp(expr), not val)])
            self.pos += 1
        self.trail.append((_fp(expr), val))
        lit = expr if val else z3.Not(expr)
        self.solver.add(lit)
        self.keep.append(expr)
        self.known[expr.get_id()] = val
        return val

    def choose(self, expr, values):
        """Concretise an integer term known to range over `values`."""
        values = list(values)
        for v in values[:-1]:
            if self.decide(expr == v):
                return v
        self.assume(expr == values[-1])
        return values[-1]

    def violated(self, expr):
        """None when expr holds for every value on this path, else a z3 model."""
        self.n_checks += 1
        if isinstance(expr, bool):
            if expr:
                self.n_trivial += 1
                return None
            self._ensure_model()
            return self.model
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            self.n_trivial += 1
            return None
        if self.model is not None and z3.is_false(self.model.eval(expr, model_completion=True)):
            return self.model
        if self._check(z3.Not(expr)):
            return self.solver.model()
        return None

    def path_feasible(self):
        return self._check()

    def next_id(self):
        self.counter += 1
        return self.counter


def ctx():
    c = Ctx.current
    if c is None:
        raise RuntimeError("symbolic value used outside symbolic execution")
    return c
