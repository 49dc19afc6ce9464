"""Proxy values that carry z3 terms through unmodified Python / pandas code."""
import builtins
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from .core import Ctx, ctx, Unsupported, Inconclusive

NAN = np.float64("nan")
INF = np.float64("inf")


def _tok(kind, obj):
    """Register obj under a valid identifier, so text built by the code under
    test and handed to eval() gets the symbolic value back."""
    c = ctx()
    name = "SYMX_%s_%d" % (kind, c.next_id())
    setattr(builtins, name, obj)
    c.tokens.append(name)
    return name


def untok(text):
    """(value, format spec) behind a piece of text made from a symbolic number."""
    v = builtins.__dict__[text]
    return v if isinstance(v, tuple) else (v, "")


TOKEN = r"SYMX_(?:num|fmt)_[0-9]+"


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    @staticmethod
    def _e(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        e = SymBool._e(o)
        return NotImplemented if e is None else SymBool(z3.And(self.e, e))

    __rand__ = __and__

    def __or__(self, o):
        e = SymBool._e(o)
        return NotImplemented if e is None else SymBool(z3.Or(self.e, e))

    __ror__ = __or__

    def __xor__(self, o):
        e = SymBool._e(o)
        return NotImplemented if e is None else SymBool(z3.Xor(self.e, e))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        e = SymBool._e(o)
        if e is None:
            return bool(self) == o
        return SymBool(self.e == e)

    def __ne__(self, o):
        e = SymBool._e(o)
        if e is None:
            return bool(self) != o
        return SymBool(self.e != e)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "True" if bool(self) else "False"

    __str__ = __repr__


def b_not(x):
    return SymBool(z3.Not(x.e)) if isinstance(x, SymBool) else (not x)


def b_and(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(*es))


def b_or(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3.Or(*es))


def b_iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    a = a.e if isinstance(a, SymBool) else z3.BoolVal(bool(a))
    b = b.e if isinstance(b, SymBool) else z3.BoolVal(bool(b))
    return SymBool(a == b)


def b_implies(a, b):
    return b_or(b_not(a), b)


# ------------------------------------------------------------------- numbers
def _is_special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class SymNum:
    """Common base of SymReal and SymInt.  Finite values only: NaN and the
    infinities are represented by the concrete float (harnesses fork on them)."""

    __slots__ = ("e", "_t")
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e
        self._t = None

    # -- coercion
    @staticmethod
    def lift(o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return SymInt(z3.If(o.e, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(o, (bool, np.bool_, int, np.integer)):
            return SymInt(z3.IntVal(int(o)))
        if isinstance(o, (float, np.floating)):
            if not math.isfinite(o):
                return None
            f = Fraction(float(o))
            return SymReal(z3.RealVal("%d/%d" % (f.numerator, f.denominator)))
        if isinstance(o, Fraction):
            return SymReal(z3.RealVal("%d/%d" % (o.numerator, o.denominator)))
        return None

    @staticmethod
    def _mk(e):
        return SymInt(e) if e.sort() == z3.IntSort() else SymReal(e)

    def _sign(self):
        """-1, 0 or 1 on this path (forks)."""
        if ctx().decide(self.e > 0):
            return 1
        if ctx().decide(self.e == 0):
            return 0
        return -1

    def _arith(self, o, f, special, swap=False):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._arith(o.item(), f, special, swap)
            return NotImplemented
        if _is_special(o):
            return special(self, np.float64(o), swap)
        s = SymNum.lift(o)
        if s is None:
            return NotImplemented
        a, b = (s.e, self.e) if swap else (self.e, s.e)
        return SymNum._mk(f(a, b))

    @staticmethod
    def _sp_add(self, o, swap):
        return o

    @staticmethod
    def _sp_sub(self, o, swap):
        return o if swap else -o

    @staticmethod
    def _sp_mul(self, o, swap):
        if math.isnan(o):
            return o
        s = self._sign()
        return NAN if s == 0 else np.float64(s * o)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, self._sp_add)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, self._sp_add, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, self._sp_sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, self._sp_sub, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b, self._sp_mul)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, self._sp_mul, True)

    @staticmethod
    def _div(a, b):
        """a / b with numpy float64 semantics; a, b finite SymNum."""
        if ctx().decide(b.e == 0):
            s = a._sign()
            return NAN if s == 0 else np.float64(s) * INF
        return SymReal(z3.ToReal(a.e) / z3.ToReal(b.e) if a.e.sort() == z3.IntSort() and b.e.sort() == z3.IntSort() else a.e / b.e)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_special(o):
            return NAN if math.isnan(o) else SymReal(z3.RealVal(0))
        s = SymNum.lift(o)
        return NotImplemented if s is None else SymNum._div(self, s)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _is_special(o):
            if math.isnan(o):
                return NAN
            s = self._sign()
            return np.float64(o) * (1 if s >= 0 else -1)
        s = SymNum.lift(o)
        return NotImplemented if s is None else SymNum._div(s, self)

    def __neg__(self):
        return SymNum._mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum._mk(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n, mod=None):
        if isinstance(n, (int, np.integer)) and 0 <= n <= 4:
            r = SymInt(z3.IntVal(1))
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported("SymNum ** %r" % (n,))

    # -- comparison
    def _cmp(self, o, f, special):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if _is_special(o):
            return special(o)
        s = SymNum.lift(o)
        if s is None:
            return NotImplemented
        return SymBool(f(self.e, s.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s < 0)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda s: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda s: True)

    def __hash__(self):
        return 7

    def __bool__(self):
        return ctx().decide(self.e != 0)

    # -- text
    def token(self):
        if self._t is None:
            self._t = _tok("num", self)
        return self._t

    def __str__(self):
        return self.token()

    def __repr__(self):
        return self.token()

    def __format__(self, spec):
        if spec:
            return _tok("fmt", (self, spec))
        return self.token()

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and not kw.get("out"):
            name = ufunc.__name__
            if any(isinstance(i, np.ndarray) and i.ndim for i in inputs):
                arrs = [np.asarray(i, dtype=object) if isinstance(i, np.ndarray) else i for i in inputs]
                shape = np.broadcast_shapes(*[a.shape for a in arrs if isinstance(a, np.ndarray)])
                out = np.empty(shape, dtype=object)
                for idx in np.ndindex(*shape):
                    out[idx] = self.__array_ufunc__(
                        ufunc, method, *[np.broadcast_to(a, shape)[idx] if isinstance(a, np.ndarray) else a for a in arrs])
                return out
            f = _UFUNCS.get(name)
            if f is not None:
                return f(*inputs)
        raise Unsupported("ufunc %s.%s" % (ufunc.__name__, method))

    def __array_function__(self, func, types, args, kwargs):
        f = _ARRFUNCS.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        raise Unsupported("numpy function %s" % func.__name__)

    def __array__(self, *a, **k):
        out = np.empty((), dtype=object)
        out[()] = self
        return out

    # used by pandas round(), numpy object ufuncs
    def isnan(self):
        return False

    def isfinite(self):
        return True

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return bool(SymBool(z3.IsInt(self.e))) if isinstance(self, SymReal) else True

    def __floor__(self):
        return self if isinstance(self, SymInt) else SymInt(z3.ToInt(self.e))

    def __trunc__(self):
        if isinstance(self, SymInt):
            return self
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if isinstance(self, SymInt):
            return self
        if nd is None or nd == 0:
            n = z3.ToInt(self.e)
            fr = self.e - z3.ToReal(n)
            r = z3.If(fr > z3.RealVal("1/2"), n + 1,
                      z3.If(fr < z3.RealVal("1/2"), n, z3.If(n % 2 == 0, n, n + 1)))
            return SymInt(r) if nd is None else SymReal(z3.ToReal(r))
        raise Unsupported("round(x, %r)" % nd)

    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.as_long())
        raise Unsupported("float() of a symbolic number")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")


class SymReal(SymNum):
    __slots__ = ()

    def __int__(self):
        raise Unsupported("int() of a symbolic real")


class SymInt(SymNum):
    __slots__ = ()

    def __int__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        # concretise: one path per value (the harness bounds the range)
        c = ctx()
        rng = getattr(c, "int_ranges", {}).get(self.e.get_id())
        if rng is None:
            raise Unsupported("int() of an unbounded symbolic integer")
        return c.choose(self.e, range(rng[0], rng[1] + 1))

    __index__ = __int__

    def __mod__(self, o):
        s = SymNum.lift(o)
        return SymInt(self.e % s.e)

    def __floordiv__(self, o):
        s = SymNum.lift(o)
        return SymInt(self.e / s.e)


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def _u(name):
    import operator as op
    return {
        "add": op.add, "subtract": op.sub, "multiply": op.mul,
        "divide": op.truediv, "true_divide": op.truediv,
        "less": op.lt, "less_equal": op.le, "greater": op.gt,
        "greater_equal": op.ge, "equal": op.eq, "not_equal": op.ne,
        "negative": op.neg, "absolute": abs, "positive": op.pos,
    }[name]


def _swap_np(f):
    """Keep numpy scalars from dispatching back to __array_ufunc__."""
    def g(*a):
        a = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
        a = [x.item() if isinstance(x, np.generic) and not _is_special(x) else
             (float(x) if isinstance(x, np.generic) else x) for x in a]
        return f(*a)
    return g


_UFUNCS = {n: _swap_np(_u(n)) for n in (
    "add", "subtract", "multiply", "divide", "less", "less_equal", "greater",
    "greater_equal", "equal", "not_equal", "negative", "absolute", "positive")}
_UFUNCS["true_divide"] = _UFUNCS["divide"]
_UFUNCS.update({
    "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True,
    "conjugate": lambda x: x,
    "maximum": lambda a, b: NAN if _nan(a) or _nan(b) else (a if a >= b else b),
    "minimum": lambda a, b: NAN if _nan(a) or _nan(b) else (a if a <= b else b),
    "fmax": lambda a, b: b if _nan(a) else (a if _nan(b) or a >= b else b),
    "fmin": lambda a, b: b if _nan(a) else (a if _nan(b) or a <= b else b),
    "rint": lambda x: round(x, 0),
})
_ARRFUNCS = {
    "nan_to_num": lambda x, *a, **k: x,
    "isneginf": lambda x, *a, **k: False,
    "isposinf": lambda x, *a, **k: False,
    "iscomplexobj": lambda x: False,
    "isscalar": lambda x: True,
    "sum": lambda x, *a, **k: x, "mean": lambda x, *a, **k: x,
    "max": lambda x, *a, **k: x, "min": lambda x, *a, **k: x,
    "amax": lambda x, *a, **k: x, "amin": lambda x, *a, **k: x,
    "ndim": lambda x: 0, "shape": lambda x: (), "size": lambda x: 1,
    "round": lambda x, d=0: round(x, d), "around": lambda x, d=0: round(x, d),
    "isreal": lambda x: True, "nansum": lambda x, *a, **k: x,
    "copy": lambda x, *a, **k: x, "real": lambda x: x,
}


def _nan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


# --------------------------------------------------- names: ordered atoms
class SymName(str):
    """A string of which only the position in the (total, dense) order of all
    strings is known: supports ==, !=, <, <=, >, >= against other SymNames."""

    def __new__(cls, label, e):
        s = str.__new__(cls, "SYMNAME_" + label)
        s.e = e
        s.label = label
        return s

    def _o(self, o, f, what):
        if isinstance(o, SymName):
            if o is self or o.label == self.label:
                return f(0, 0)
            return SymBool(f(self.e, o.e))
        if isinstance(o, str):
            if what == "eq":
                c = ctx()
                consts = c.__dict__.setdefault("name_consts", set())
                consts.add(str.__str__(o))
                return SymBool(self.e == const_rank(o)) if what == "eq" else None
            return SymBool(f(self.e, const_rank(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._o(o, lambda a, b: a == b, "eq")

    def __ne__(self, o):
        return self._o(o, lambda a, b: a != b, "ne")

    def __lt__(self, o):
        return self._o(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._o(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._o(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._o(o, lambda a, b: a >= b, "ge")

    def __hash__(self):
        return 11

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # str(x) / "%s" % x / f"{x}" give the token text; harnesses map it back
    def __str__(self):
        return str.__str__(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic name")


def const_rank(s):
    """Order-preserving injection of constant strings into the reals in (0,1)."""
    n, d = 0, 1
    for ch in str.__str__(s)[:40]:
        n = n * 0x110001 + ord(ch) + 1
        d = d * 0x110001
    if not s:
        return z3.RealVal(0)
    return z3.RealVal("%d/%d" % (n, d))


# ----------------------------------------------------- strings: z3 sequences
class SymStr(str):
    """A string with symbolic content (z3 sequence of bounded length)."""

    def __new__(cls, label, e):
        s = str.__new__(cls, "SYMSTR_" + label)
        s.e = e
        s.label = label
        return s

    @staticmethod
    def _e(o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, SymName):
            raise Unsupported("SymStr with SymName")
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        e = self._e(o)
        return NotImplemented if e is None else SymBool(self.e == e)

    def __ne__(self, o):
        e = self._e(o)
        return NotImplemented if e is None else SymBool(self.e != e)

    def __lt__(self, o):
        return SymBool(self.e < self._e(o))

    def __le__(self, o):
        return SymBool(self.e <= self._e(o))

    def __gt__(self, o):
        return SymBool(self._e(o) < self.e)

    def __ge__(self, o):
        return SymBool(self._e(o) <= self.e)

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(SymBool(z3.Length(self.e) > 0))

    def __contains__(self, o):
        return bool(SymBool(z3.Contains(self.e, self._e(o))))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with range")
        if isinstance(p, tuple):
            return b_or(*[self.startswith(x) for x in p])
        return SymBool(z3.PrefixOf(self._e(p), self.e))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with range")
        if isinstance(p, tuple):
            return b_or(*[self.endswith(x) for x in p])
        return SymBool(z3.SuffixOf(self._e(p), self.e))

    def find(self, p, *a):
        if a:
            raise Unsupported("find with range")
        return SymInt(z3.IndexOf(self.e, self._e(p), 0))

    def __len__(self):
        c = ctx()
        return c.choose(z3.Length(self.e), range(0, getattr(c, "str_max", 8) + 1))

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            a, b, st = i.indices(n)
            if st != 1:
                raise Unsupported("string slice step")
            return SymStr(self.label + "_s%d" % ctx().next_id(), z3.SubString(self.e, a, max(0, b - a)))
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return SymStr(self.label + "_c%d" % ctx().next_id(), z3.SubString(self.e, i, 1))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self

    def __format__(self, spec):
        return _tok("str", self)

    def __repr__(self):
        return _tok("str", self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic string")


def _blocked(name):
    def f(self, *a, **k):
        raise Unsupported("str.%s on a symbolic string" % name)
    return f


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "join",
           "replace", "index", "rfind", "rindex", "count", "encode", "format",
           "isdigit", "isalpha", "isidentifier", "isspace", "partition", "rpartition",
           "splitlines", "title", "casefold", "translate", "zfill", "center", "ljust",
           "rjust", "expandtabs", "swapcase", "capitalize", "__add__", "__mul__",
           "__mod__", "__rmod__", "__radd__", "removeprefix", "removesuffix"):
    setattr(SymStr, _n, _blocked(_n))
    if _n not in ("join", "format"):
        if _n not in ("__add__", "__radd__"):
            setattr(SymName, _n, _blocked(_n))
for _n in ("startswith", "endswith", "find", "__contains__", "__getitem__", "__len__", "__iter__"):
    setattr(SymName, _n, _blocked(_n))


def _real_str(s):
    return str.__str__(s)


# ----------------------------------------------------------------- addresses
_builtin_id = builtins.id


class SymAddr:
    """Result of id(obj): identity is exact, the order of addresses symbolic."""

    __slots__ = ("k", "obj")

    def __init__(self, k, obj):
        self.k = k
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, SymAddr) and o.k == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.k

    def _v(self):
        return z3.Int("addr_%d" % self.k)

    def __lt__(self, o):
        if self.k == o.k:
            return False
        c = ctx()
        pair = ("addr", min(self.k, o.k), max(self.k, o.k))
        if pair not in c.known:
            c.known[pair] = True
            c.solver.add(self._v() != o._v())
            c.model = None
        return SymBool(self._v() < o._v())

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return self.k == o.k or self < o

    def __ge__(self, o):
        return self.k == o.k or o < self

    def __repr__(self):
        return "addr_%d" % self.k


def sym_id(obj):
    c = Ctx.current
    if c is None:
        return _builtin_id(obj)
    r = _builtin_id(obj)
    a = c.ids.get(r)
    if a is None or a.obj is not obj:
        a = SymAddr(len(c.id_objs), obj)
        c.ids[r] = a
        c.id_objs.append(obj)
    return a


# ------------------------------------------------ helpers used by harnesses
def eqv(a, b):
    """Same number, NaN equal to NaN (symbolic-aware)."""
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if _is_special(a) or _is_special(b):
            return False
        if not isinstance(a, SymNum):
            a, b = b, a
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= 1e-6 * max(1.0, abs(fa), abs(fb))
