"""Input providers: the same harness runs symbolically and, for replay and for
validation of explored paths, on concrete values against unpatched code."""
import math
from fractions import Fraction

import numpy as np
import z3

from . import proxies as P
from .core import AssumeFailed, PathDone


class CheckFailed(Exception):
    def __init__(self, label, info=""):
        Exception.__init__(self, "%s %s" % (label, info))
        self.label = label
        self.info = info


class Base:
    symbolic = False
    params = None

    # numeric helpers usable in both modes
    def And(self, *a):
        return P.b_and(*a)

    def Or(self, *a):
        return P.b_or(*a)

    def Not(self, a):
        return P.b_not(a)

    def Iff(self, a, b):
        return P.b_iff(a, b)

    def Implies(self, a, b):
        return P.b_implies(a, b)

    def eqv(self, a, b):
        return P.eqv(a, b)

    def edge(self, name):
        return self.flag(name)

    def done(self):
        raise PathDone()

    def metric(self, name, kinds=("fin",), lo=None, hi=None):
        """A metric value; `kinds` lists what it may be: fin nan inf -inf."""
        k = kinds[0] if len(kinds) == 1 else self.choice(name + "?", kinds)
        if k == "nan":
            return P.NAN
        if k == "inf":
            return P.INF
        if k == "-inf":
            return -P.INF
        return self.real(name, lo, hi)


class Sym(Base):
    symbolic = True

    def __init__(self, ctx, params, known=()):
        self.c = ctx
        self.params = params
        self.specs = {}
        self.log = []          # (label, outcome) of this path
        self.violations = []
        self.knowns = set(known)
        self.known_hits = set()
        self.witness = set()
        self.notes = []

    def _reg(self, name, kind, var, extra=None):
        if name in self.specs:
            raise RuntimeError("duplicate input name %s" % name)
        self.specs[name] = (kind, var, extra)

    def flag(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return self.c.decide(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return P.SymBool(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = z3.Int(name)
        self._reg(name, "choice", v, len(options))
        self.c.assume(z3.And(v >= 0, v < len(options)))
        return options[self.c.choose(v, range(len(options)))]

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self._reg(name, "real", v)
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        return P.SymReal(v)

    def int(self, name, lo, hi):
        """Lazy symbolic integer."""
        v = z3.Int(name)
        self._reg(name, "int", v)
        self.c.assume(z3.And(v >= lo, v <= hi))
        r = P.SymInt(v)
        self.c.__dict__.setdefault("int_ranges", {})[v.get_id()] = (lo, hi)
        self.c.keep.append(v)
        return r

    def name(self, name):
        v = z3.Real(name)
        self._reg(name, "name", v)
        self.c.assume(z3.And(v > 0, v < 1))
        return P.SymName(name, v)

    def string(self, name, maxlen, alphabet=None):
        v = z3.String(name)
        self._reg(name, "string", v)
        self.c.assume(z3.Length(v) <= maxlen)
        self.c.str_max = max(getattr(self.c, "str_max", 0), maxlen)
        if alphabet:
            self.c.assume(z3.InRe(v, z3.Star(z3.Union(*[z3.Re(a) for a in alphabet]))
                                  if len(alphabet) > 1 else z3.Star(z3.Re(alphabet))))
        return P.SymStr(name, v)

    def assume(self, cond):
        self.c.assume(cond.e if isinstance(cond, P.SymBool) else bool(cond))

    def check(self, label, cond, info="", known=None):
        c = self.c
        if c.pos < len(c.prefix):
            # the path that forked here already discharged this obligation under
            # the same path condition
            return
        e = cond.e if isinstance(cond, P.SymBool) else bool(cond)
        m = c.violated(e)
        if label not in self.witness:
            self.witness.add(label)
        self.log.append(label)
        if m is None:
            return
        for kid, pred in (known or {}).items():
            if kid not in self.knowns:
                continue
            pe = pred.e if isinstance(pred, P.SymBool) else z3.BoolVal(bool(pred))
            ee = e if not isinstance(e, bool) else z3.BoolVal(e)
            if not c._check(z3.Not(ee), z3.Not(pe)):
                self.known_hits.add(kid)
                c.assume(z3.simplify(ee)) if not z3.is_false(z3.simplify(ee)) else None
                if z3.is_false(z3.simplify(ee)):
                    raise PathDone()
                return
            c.solver.push()
            c.solver.add(z3.Not(pe))
            self._violate(label, e, info)
            c.solver.pop()
            raise PathDone()
        self._violate(label, e, info)
        raise PathDone()

    def _violate(self, label, e, info):
        ne = z3.BoolVal(not e) if isinstance(e, bool) else z3.Not(e)
        self.violations.append({"label": label, "info": str(info)[:500],
                                "inputs": self.model_inputs(ne),
                                "addr": self.addr_order(ne)})

    # -- models
    def _nice_model(self, extra):
        """A model of pc /\\ extra, with small integers for reals when possible."""
        c = self.c
        s = c.solver
        reals = [v for k, v, _ in self.specs.values() if k == "real"]
        for bound, den in ((9, 1), (99, 1), (99, 4), (2000, 1), (1000, 64)):
            if not reals:
                break
            s.push()
            s.add(extra)
            for v in reals:
                s.add(z3.IsInt(v * den), v >= -bound, v <= bound)
            s.set("timeout", 3000)
            try:
                if s.check() == z3.sat:
                    return s.model()
            finally:
                s.set("timeout", 60000)
                s.pop()
        s.push()
        s.add(extra)
        try:
            if s.check() == z3.sat:
                return s.model()
        finally:
            s.pop()
        return None

    def model_inputs(self, extra=None):
        m = self._nice_model(extra if extra is not None else z3.BoolVal(True))
        if m is None:
            return None
        self._last_model = m
        out = {}
        ranks = {}
        for name, (kind, var, ex) in self.specs.items():
            v = m.eval(var, model_completion=True)
            if kind == "bool":
                out[name] = z3.is_true(v)
            elif kind in ("choice", "int"):
                out[name] = v.as_long()
            elif kind == "real":
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = float(v.as_fraction())
            elif kind == "name":
                ranks[name] = v.as_fraction()
            elif kind == "string":
                out[name] = v.as_string() if not hasattr(v, "py_value") else v.py_value()
        consts = {}
        for s in getattr(self.c, "name_consts", ()):
            consts[P.const_rank(s).as_fraction() if s else Fraction(0)] = s
        order = sorted(set(ranks.values()) | set(consts))
        text = {}
        prev, n, k = "", 0, 0
        for r in order:
            if r in consts:
                text[r] = consts[r]
                prev, n = consts[r], 0
            else:
                n += 1
                text[r] = prev + ("\x00" * n if prev else chr(ord("a") + n - 1) if n <= 26 else "z" * n)
        for name, r in ranks.items():
            out[name] = text[r]
        return out

    def addr_order(self, extra=None):
        m = getattr(self, "_last_model", None)
        if m is None:
            return None
        out = {}
        for a in self.c.ids.values():
            v = m.eval(a._v(), model_completion=False)
            try:
                out[str(a.k)] = v.as_long()
            except AttributeError:
                pass
        return out


class Conc(Base):
    symbolic = False

    def __init__(self, values, params, stop=True):
        self.values = values
        self.params = params
        self.stop = stop
        self.log = []
        self.failures = []

    def flag(self, name):
        return bool(self.values.get(name, False))

    bool = flag

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[min(int(self.values.get(name, 0)), len(options) - 1)]

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0.0)
        return float(v)

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def name(self, name):
        return str(self.values.get(name, "a"))

    def string(self, name, maxlen, alphabet=None):
        return str(self.values.get(name, ""))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, label, cond, info="", known=None):
        self.log.append(label)
        if not cond:
            if known and any(known.values()):
                raise PathDone()
            raise CheckFailed(label, info)
