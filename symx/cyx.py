"""Encoding of the Cython kernels: the current .pyx source is parsed with Cython's
own parser and translated, on every run, to Python that works on tagged values, so
the kernels can be executed symbolically.

C integers are CInt values (type + mathematical value): the usual arithmetic
conversions, wrap-around on conversion, signed/unsigned comparisons and true
division to double are those of Cython's generated C (language level 3).  Typed
memory views are MemView objects over the caller's array; an access outside the
array is an error even where the kernel switched bounds checks off.
Constructs outside this subset raise Unsupported (the check then has no answer).
The built extension is what counterexamples are replayed against."""
import contextlib
import os
import sys

import numpy as np

from . import proxies as P
from .core import Unsupported


class OutOfBounds(Exception):
    pass


# ---------------------------------------------------------------- C types
def _int_t(bits, signed):
    return ("i", bits, signed)


LONG = _int_t(64, True)
INT = _int_t(32, True)
DOUBLE = ("f", 64, True)
OBJ = None
_NAMED = {"size_t": _int_t(64, False), "Py_ssize_t": LONG, "ssize_t": LONG, "bint": ("b", 1, True),
          "double": DOUBLE, "Py_hash_t": LONG, "uintptr_t": _int_t(64, False), "intptr_t": LONG,
          "intp_t": LONG, "uintp_t": _int_t(64, False), "float64_t": DOUBLE, "uint_t": _int_t(64, False),
          "int_t": LONG, "npy_intp": LONG}
for _b in (8, 16, 32, 64):
    _NAMED["int%d_t" % _b] = _NAMED["npy_int%d" % _b] = _int_t(_b, True)
    _NAMED["uint%d_t" % _b] = _NAMED["npy_uint%d" % _b] = _int_t(_b, False)


def lo_hi(t):
    _, bits, signed = t
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def convert(v, t):
    """v (raw or CInt) as a value of C type t."""
    if t is OBJ:
        return v.v if isinstance(v, CInt) else v
    raw = v.v if isinstance(v, CInt) else v
    if t[0] == "b":
        return bool(raw)
    if t[0] == "f":
        if isinstance(raw, P.SymInt):
            raise Unsupported("symbolic integer converted to double")
        if isinstance(raw, (bool, int, np.integer)):
            return float(raw)
        return raw
    if isinstance(raw, (bool, np.bool_, P.SymBool)):
        raw = int(raw)
    if isinstance(raw, (float, np.floating)):
        raw = int(raw)
    elif isinstance(raw, np.integer):
        raw = int(raw)
    elif isinstance(raw, P.SymReal):
        raise Unsupported("symbolic double converted to an integer")
    elif not isinstance(raw, (int, P.SymInt)):
        if hasattr(raw, "__index__"):
            raw = raw.__index__()
        else:
            raise TypeError("an integer is required")
    lo, hi = lo_hi(t)
    n = 0
    while raw > hi or raw < lo:
        n += 1
        if n > 4:
            raise Unsupported("wide wrap-around of a symbolic integer")
        if isinstance(raw, int):
            raw = (raw - lo) % (hi - lo + 1) + lo
        elif raw > hi:
            raw = raw - (hi - lo + 1)
        else:
            raw = raw + (hi - lo + 1)
    return CInt(raw, t)


def checked(v, t):
    """Conversion of a Python object: out of range is OverflowError, not wrapped."""
    if t is not OBJ and t[0] == "i" and not isinstance(v, CInt):
        raw = v
        if isinstance(raw, float):
            raise TypeError("an integer is required")
        r = convert(raw, t)
        if isinstance(raw, (int, np.integer)) and r.v != int(raw):
            raise OverflowError("Python int too large to convert to C")
        return r
    return convert(v, t)


def _common(a, b):
    ba, sa = max(a[1], 32), a[2] if a[1] >= 32 else True
    bb, sb = max(b[1], 32), b[2] if b[1] >= 32 else True
    if ba == bb:
        return _int_t(ba, sa and sb)
    return _int_t(ba, sa) if ba > bb else _int_t(bb, sb)


class CInt:
    """A C integer: mathematical value v (int or SymInt) and type t."""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v, self.t = v, t

    def _bin(self, o, f, swap=False):
        if isinstance(o, CInt):
            t = _common(self.t, o.t)
        elif isinstance(o, (bool, int, np.integer)):
            t = _common(self.t, LONG if abs(int(o)) > 2 ** 31 - 1 else INT)
            o = CInt(int(o), t)
        elif isinstance(o, P.SymInt):
            a, b = (o, self.v) if swap else (self.v, o)
            return f(a, b)
        else:
            if isinstance(self.v, P.SymInt):
                raise Unsupported("symbolic C integer mixed with %s" % type(o).__name__)
            a, b = (o, self.v) if swap else (self.v, o)
            return f(a, b)
        a, b = convert(self, t).v, convert(o, t).v
        if swap:
            a, b = b, a
        r = f(a, b)
        if isinstance(r, (bool, np.bool_, P.SymBool, float)):
            return r
        return convert(r, t)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a // b)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: a // b, True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: a % b, True)

    @staticmethod
    def _bit(name):
        def f(a, b):
            if isinstance(a, P.SymInt) or isinstance(b, P.SymInt):
                raise Unsupported("bit operation on a symbolic integer")
            return getattr(a, name)(b)
        return f

    def __truediv__(self, o):
        return self._div(self.v, o.v if isinstance(o, CInt) else o)

    def __rtruediv__(self, o):
        return self._div(o, self.v)

    @staticmethod
    def _div(a, b):
        if isinstance(a, P.SymInt) or isinstance(b, P.SymInt):
            raise Unsupported("double division of symbolic integers")
        return float(a) / float(b)

    def __neg__(self):
        t = _common(self.t, INT)
        return convert(-self.v, t)

    def __pos__(self):
        return self

    def __invert__(self):
        if isinstance(self.v, P.SymInt):
            raise Unsupported("bit operation on a symbolic integer")
        return convert(~self.v, _common(self.t, INT))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None:
            return False
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None:
            return True
        return self._bin(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return bool(self.v != 0)

    def __int__(self):
        return int(self.v)

    def __index__(self):
        return int(self.v)

    def __float__(self):
        return float(int(self.v))

    def __abs__(self):
        return self if self.v >= 0 else -self

    def __floor__(self):
        return float(int(self.v))

    def __repr__(self):
        return repr(self.v)

    __str__ = __repr__


for _n in ("and", "or", "xor", "lshift", "rshift"):
    def _mk(n):
        g = CInt._bit("__%s__" % n)
        setattr(CInt, "__%s__" % n, lambda self, o: self._bin(o, g))
        setattr(CInt, "__r%s__" % n, lambda self, o: self._bin(o, g, True))
    _mk(_n)


class Sparse:
    """A long one-dimensional array of which few entries are ever used."""
    ndim, dtype = 1, np.dtype(object)

    def __init__(self, n, entries, default=0.0):
        self.shape, self.entries, self.default = (n,), dict(entries), default

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, i):
        return self.entries.get(i % self.shape[0], self.default)

    def __setitem__(self, i, v):
        self.entries[i % self.shape[0]] = v


class MemView:
    """A typed memory view over an array (object arrays hold symbolic elements)."""
    __slots__ = ("a", "t")

    def __init__(self, a, t, ndim):
        if isinstance(a, MemView):
            a = a.a
        if not isinstance(a, (np.ndarray, Sparse)):
            raise TypeError("a bytes-like object is required")
        if a.ndim != ndim:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (ndim, a.ndim))
        if a.dtype != object:
            want = {"f": "f", "i": "i" if t[2] else "u", "b": "b"}[t[0]]
            if a.dtype.kind != want or a.dtype.itemsize * 8 != t[1]:
                raise ValueError("Buffer dtype mismatch, expected %r but got %s" % (t, a.dtype))
        self.a, self.t = a, t

    def _ix(self, i):
        if isinstance(i, tuple):
            return tuple(self._ix1(x, d) for d, x in enumerate(i))
        return self._ix1(i, 0)

    def _ix1(self, i, d):
        if isinstance(i, slice):
            g = lambda x: None if x is None else int(x)
            return slice(g(i.start), g(i.stop), g(i.step))
        i = int(i)
        n = self.a.shape[d]
        if i < -n or i >= n:
            raise OutOfBounds("index %d outside a buffer of %d elements" % (i, n))
        return i

    def __getitem__(self, i):
        r = self.a[self._ix(i)]
        if isinstance(r, np.ndarray):
            m = MemView.__new__(MemView)
            m.a, m.t = r, self.t
            return m
        return convert(r, self.t)

    def __setitem__(self, i, v):
        ix = self._ix(i)
        if isinstance(v, MemView):
            self.a[ix] = v.a
            return
        v = convert(v, self.t)
        self.a[ix] = v.v if isinstance(v, CInt) else v

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    @property
    def shape(self):
        return tuple(CInt(n, LONG) for n in self.a.shape)

    @property
    def size(self):
        return self.a.size

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def T(self):
        m = MemView.__new__(MemView)
        m.a, m.t = self.a.T, self.t
        return m

    @property
    def base(self):
        return self.a

    def __array__(self, *a, **k):
        return self.a


# ---------------------------------------------------------------- helpers seen by the code
def strip(v):
    if isinstance(v, CInt):
        return v.v
    if isinstance(v, tuple):
        return tuple(strip(x) for x in v)
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def _floor(x):
    import math
    if isinstance(x, CInt):
        return float(int(x.v))
    return float(math.floor(x))


def _ceil(x):
    import math
    if isinstance(x, CInt):
        return float(int(x.v))
    return float(math.ceil(x))


def crange(*a):
    tagged = any(isinstance(x, CInt) for x in a)
    for i in range(*[int(x) for x in a]):
        yield CInt(i, LONG) if tagged else i


class _Cython:
    """compiler directives are no-ops (out-of-range accesses are errors anyway)."""
    compiled = True

    def __getattr__(self, n):
        if n in ("boundscheck", "wraparound", "nonecheck", "initializedcheck", "infer_types",
                 "overflowcheck", "binding", "embedsignature", "profile"):
            def directive(on=True):
                class D(contextlib.ContextDecorator):
                    def __enter__(self):
                        return self

                    def __exit__(self, *a):
                        return False

                    def __call__(self, f):
                        return f
                return D()
            return directive
        if n in ("inline", "nogil", "ccall", "cfunc"):
            return lambda f: f
        raise Unsupported("cython.%s" % n)


class _Nogil:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---------------------------------------------------------------- translation
class Tr:
    def __init__(self, src, name):
        self.name = name
        self.out = []
        self.ind = 0
        self.types = [{}]      # scopes: name -> ('t', type) | ('mv', type, ndim)
        self.n = 0
        self.consts = {}

    def no(self, n):
        raise Unsupported("%s.pyx: construct %s outside the translated subset" % (self.name, type(n).__name__))

    def emit(self, s):
        self.out.append("    " * self.ind + s)

    # -- types
    def ctype(self, n):
        """declared type of a base-type node: ('t', T) or ('mv', T, ndim)"""
        k = type(n).__name__
        if k in ("CQualifierTypeNode", "CConstTypeNode", "CConstOrVolatileTypeNode"):
            return self.ctype(n.base_type)
        if k == "MemoryViewSliceTypeNode":
            b = self.ctype(n.base_type_node)
            if b[0] != "t" or b[1] is OBJ:
                self.no(n)
            return ("mv", b[1], len(n.axes))
        if k == "TemplatedTypeNode":
            return ("t", OBJ)
        if k == "CSimpleBaseTypeNode":
            if n.name is None:
                return ("t", OBJ)
            if getattr(n, "is_basic_c_type", False):
                if n.name in ("double",):
                    return ("t", DOUBLE)
                if n.name == "bint":
                    return ("t", ("b", 1, True))
                if n.name == "int":
                    bits = {-1: 16, 0: 32, 1: 64, 2: 64}[n.longness]
                    return ("t", _int_t(bits, n.signed != 0))
                if n.name == "char":
                    return ("t", _int_t(8, n.signed != 0))
                if n.name == "void":
                    return ("t", OBJ)
                if n.name in _NAMED:
                    return ("t", _NAMED[n.name])
                self.no(n)
            if n.name in _NAMED:
                return ("t", _NAMED[n.name])
            if n.name in self.ctypedefs:
                return self.ctypedefs[n.name]
            return ("t", OBJ)
        self.no(n)

    ctypedefs = {}

    def declname(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name
        self.no(d)

    def lookup(self, name):
        for s in reversed(self.types):
            if name in s:
                return s[name]
        return None

    def coerce(self, name, expr):
        t = self.types[-1].get(name) if len(self.types) > 1 else self.lookup(name)
        return self.coerce_t(t, expr)

    def coerce_t(self, t, expr):
        if t is None or (t[0] == "t" and t[1] is OBJ):
            return "_strip(%s)" % expr
        if t[0] == "mv":
            return "_MemView(%s, %r, %d)" % (expr, t[1], t[2])
        return "_conv(%s, %r)" % (expr, t[1])

    # -- statements
    def body(self, n):
        self.ind += 1
        k = len(self.out)
        if n is not None:
            self.stat(n)
        if len(self.out) == k:
            self.emit("pass")
        self.ind -= 1

    def stat(self, n):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            self.no(n)
        f(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stat(s)

    def s_CompilerDirectivesNode(self, n):
        self.stat(n.body)

    def s_PassStatNode(self, n):
        self.emit("pass")

    def s_ExprStatNode(self, n):
        self.emit(self.e(n.expr))

    def s_FromCImportStatNode(self, n):
        mod = str(n.module_name)
        for it in n.imported_names:
            name, as_name = it[1], it[2] or it[1]
            if mod in ("libc.math", "math") and name in ("floor", "ceil", "fabs"):
                self.emit("%s = _lib[%r]" % (as_name, str(name)))
            elif mod in ("libc.stdint", "numpy"):
                pass
            elif mod == "cython.parallel" and name in ("prange", "parallel"):
                self.emit("%s = _lib[%r]" % (as_name, str(name)))
            else:
                self.emit("%s = _lib_missing(%r, %r)" % (as_name, mod, str(name)))

    def s_CImportStatNode(self, n):
        pass

    def s_FromImportStatNode(self, n):
        # from x import y
        mod = n.module.module_name.value
        if mod == "cython.parallel":
            for name, target in n.items:
                self.emit("%s = _lib[%r]" % (target.name, str(name)))
            return
        self.emit("from %s import %s" % (mod, ", ".join("%s as %s" % (a, b.name) for a, b in n.items)))

    def s_CTypeDefNode(self, n):
        self.ctypedefs = dict(self.ctypedefs)
        self.ctypedefs[self.declname(n.declarator)] = self.ctype(n.base_type)

    def s_CVarDefNode(self, n):
        t = self.ctype(n.base_type)
        for d in n.declarators:
            name = self.declname(d)
            self.types[-1][name] = t
            if d.default is not None:
                self.emit("%s = %s" % (name, self.coerce_t(t, self.e(d.default))))

    def assign(self, lhs, expr):
        k = type(lhs).__name__
        if k == "NameNode":
            self.emit("%s = %s" % (lhs.name, self.coerce(lhs.name, expr)))
        elif k == "IndexNode":
            self.emit("%s = _elem(%s)" % (self.e(lhs), expr))
        elif k == "AttributeNode":
            self.emit("%s = _strip(%s)" % (self.e(lhs), expr))
        elif k in ("TupleNode", "ListNode"):
            self.n += 1
            v = "_t%d" % self.n
            self.emit("%s = tuple(%s)" % (v, expr))
            self.emit("if len(%s) != %d: raise ValueError('unpack')" % (v, len(lhs.args)))
            for i, a in enumerate(lhs.args):
                self.assign(a, "%s[%d]" % (v, i))
        else:
            self.no(lhs)

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = n.rhs.module_name.value
            if mod == "cython":
                self.emit("%s = _cython" % n.lhs.name)
            else:
                top = n.rhs.get_top_level_module if hasattr(n.rhs, "get_top_level_module") else False
                self.emit("import %s as %s" % (mod.split(".")[0] if top and n.lhs.name == mod.split(".")[0]
                                               else mod, n.lhs.name))
            return
        self.assign(n.lhs, self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.n += 1
        v = "_t%d" % self.n
        self.emit("%s = %s" % (v, self.e(n.rhs)))
        for l in n.lhs_list:
            self.assign(l, v)

    def s_ParallelAssignmentNode(self, n):
        tmp = []
        for s in n.stats:
            self.n += 1
            tmp.append("_t%d" % self.n)
            self.emit("%s = %s" % (tmp[-1], self.e(s.rhs)))
        for s, v in zip(n.stats, tmp):
            self.assign(s.lhs, v)

    def s_InPlaceAssignmentNode(self, n):
        self.assign(n.lhs, "(%s %s %s)" % (self.e(n.lhs), n.operator, self.e(n.rhs)))

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.emit("%s %s:" % ("elif" if i else "if", self.e(c.condition)))
            self.body(c.body)
        if n.else_clause is not None:
            self.emit("else:")
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        self.emit("while %s:" % (self.e(n.condition) if n.condition is not None else "True"))
        self.body(n.body)
        if n.else_clause is not None:
            self.emit("else:")
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        self.n += 1
        v = "_t%d" % self.n
        self.emit("for %s in %s:" % (v, self.e(n.iterator.sequence)))
        self.ind += 1
        self.assign(n.target, v)
        self.ind -= 1
        self.body(n.body)
        if n.else_clause is not None:
            self.emit("else:")
            self.body(n.else_clause)

    def s_ForFromStatNode(self, n):
        self.n += 1
        v = "_t%d" % self.n
        step = self.e(n.step) if n.step is not None else "1"
        lo, hi = self.e(n.bound1), self.e(n.bound2)
        if n.relation1 in ("<", "<="):
            rng = "range(int(%s)%s, int(%s)%s, int(%s))" % (
                lo, "" if n.relation1 == "<=" else " + 1", hi, " + 1" if n.relation2 == "<=" else "", step)
        else:
            rng = "range(int(%s)%s, int(%s)%s, -int(%s))" % (
                lo, "" if n.relation1 == ">=" else " - 1", hi, " - 1" if n.relation2 == ">=" else "", step)
        self.emit("for %s in %s:" % (v, rng))
        self.ind += 1
        self.assign(n.target, v)
        self.ind -= 1
        self.body(n.body)

    def s_BreakStatNode(self, n):
        self.emit("break")

    def s_ContinueStatNode(self, n):
        self.emit("continue")

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.emit("return None")
        else:
            self.emit("return %s" % self.coerce_t(self.ret, self.e(n.value)))

    def s_RaiseStatNode(self, n):
        self.emit("raise %s" % (self.e(n.exc_type) if n.exc_type is not None else ""))

    def s_AssertStatNode(self, n):
        self.emit("assert %s" % self.e(n.condition))

    def s_DelStatNode(self, n):
        self.emit("del %s" % ", ".join(self.e(a) for a in n.args))

    def s_GILStatNode(self, n):
        self.stat(n.body)

    def s_WithStatNode(self, n):
        self.emit("with %s:" % self.e(n.manager))
        self.body(n.body)

    def s_GlobalNode(self, n):
        self.emit("global %s" % ", ".join(n.names))

    # -- functions
    def func(self, name, args, body, ret, decorators=None):
        pos, coer = [], []
        self.types.append({})
        for a in args:
            t = self.ctype(a.base_type)
            nm = a.declarator.name
            if not nm:     # plain python argument: the name is in the type
                nm, t = a.base_type.name, ("t", OBJ)
            self.types[-1][nm] = t
            pos.append(nm + ("=" + self.e(a.default) if a.default is not None else ""))
            if t[0] == "mv":
                coer.append("%s = _MemView(%s, %r, %d)" % (nm, nm, t[1], t[2]))
            elif t[1] is not OBJ:
                coer.append("%s = _checked(%s, %r)" % (nm, nm, t[1]))
        self.emit("def %s(%s):" % (name, ", ".join(pos)))
        self.ind += 1
        for c in coer:
            self.emit(c)
        self.ind -= 1
        old = getattr(self, "ret", None)
        self.ret = ret
        self.decls(body)
        self.body(body)
        if not coer and self.out[-1].startswith("def "):
            self.emit("    pass")
        self.ret = old
        self.types.pop()

    def decls(self, n):
        """cdef declarations are function-wide, wherever they stand."""
        k = type(n).__name__
        if k == "CVarDefNode":
            t = self.ctype(n.base_type)
            for d in n.declarators:
                self.types[-1][self.declname(d)] = t
            return
        if k in ("CFuncDefNode", "DefNode"):
            return
        for a in getattr(n, "child_attrs", None) or ():
            v = getattr(n, a, None)
            for x in v if isinstance(v, list) else [v]:
                if x is not None and hasattr(x, "child_attrs"):
                    self.decls(x)

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            self.no(n)
        self.exported.add(n.name)
        self.func(n.name, n.args, n.body, ("t", OBJ))

    def s_CFuncDefNode(self, n):
        d = n.declarator
        if type(d).__name__ != "CFuncDeclaratorNode":
            self.no(d)
        if n.overridable:
            self.exported.add(d.base.name)
        self.func(d.base.name, d.args, n.body, self.ctype(n.base_type))

    # -- expressions
    def e(self, n):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            self.no(n)
        return f(n)

    def e_NameNode(self, n):
        return n.name

    def e_IntNode(self, n):
        return str(int(str(n.value).rstrip("uUlL"), 0))

    def e_FloatNode(self, n):
        return repr(float(n.value))

    def e_BoolNode(self, n):
        return "True" if n.value in (True, "True", 1) else "False"

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_BytesNode = e_UnicodeNode

    def e_AttributeNode(self, n):
        return "(%s).%s" % (self.e(n.obj), n.attribute)

    def e_IndexNode(self, n):
        return "%s[%s]" % (self.e(n.base), self.e(n.index))

    def e_SliceIndexNode(self, n):
        return "%s[%s:%s]" % (self.e(n.base), self.e(n.start) if n.start else "", self.e(n.stop) if n.stop else "")

    def e_SliceNode(self, n):
        return "slice(%s, %s, %s)" % (self.e(n.start), self.e(n.stop), self.e(n.step))

    def e_SimpleCallNode(self, n):
        return "%s(%s)" % (self.e(n.function), ", ".join(self.e(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        a = [self.e(x) for x in n.positional_args.args]
        if n.keyword_args is not None:
            for kv in n.keyword_args.key_value_pairs:
                a.append("%s=%s" % (kv.key.value, self.e(kv.value)))
        return "%s(%s)" % (self.e(n.function), ", ".join(a))

    def e_TupleNode(self, n):
        return "(%s,)" % ", ".join(self.e(a) for a in n.args) if n.args else "()"

    def e_ListNode(self, n):
        return "[%s]" % ", ".join(self.e(a) for a in n.args)

    def e_SetNode(self, n):
        return "{%s}" % ", ".join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return "{%s}" % ", ".join("%s: %s" % (self.e(p.key), self.e(p.value)) for p in n.key_value_pairs)

    def _bin(self, n):
        return "(%s %s %s)" % (self.e(n.operand1), n.operator, self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_BitwiseOrNode = e_PowNode = _bin
    e_NumBinopNode = e_BoolBinopNode = _bin

    def e_UnaryMinusNode(self, n):
        return "(-%s)" % self.e(n.operand)

    def e_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def e_TildeNode(self, n):
        return "(~%s)" % self.e(n.operand)

    def e_NotNode(self, n):
        return "(not %s)" % self.e(n.operand)

    def e_PrimaryCmpNode(self, n):
        op = {"is_not": "is not", "not_in": "not in", "<>": "!="}.get(n.operator, n.operator)
        r = "(%s %s %s" % (self.e(n.operand1), op, self.e(n.operand2))
        c = n.cascade
        while c is not None:
            op = {"is_not": "is not", "not_in": "not in"}.get(c.operator, c.operator)
            r += " %s %s" % (op, self.e(c.operand2))
            c = c.cascade
        return r + ")"

    def e_CondExprNode(self, n):
        t = getattr(n, "condition", None) or n.test
        return "(%s if %s else %s)" % (self.e(n.true_val), self.e(t), self.e(n.false_val))

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type)
        return self.coerce_t(t, self.e(n.operand))


def translate(path):
    from Cython.Compiler.TreeFragment import parse_from_strings
    name = os.path.basename(path)[:-4]
    with open(path, encoding="utf-8") as f:
        src = f.read()
    for l in src.splitlines():
        l = l.strip()
        if l.startswith("#") and "cython:" in l and ("cdivision" in l or "language_level=2" in l.replace(" ", "")):
            raise Unsupported("%s.pyx: %s" % (name, l))
    tree = parse_from_strings(name, src)
    t = Tr(src, name)
    t.exported = set()
    t.stat(tree.body)
    text = "\n".join(t.out) + "\n"

    def lib_missing(m, n):
        def f(*a, **k):
            raise Unsupported("%s.%s in %s.pyx" % (m, n, name))
        return f
    par = type("parallel", (), {"prange": staticmethod(lambda *a, **k: crange(*a))})
    g = {"__name__": "encoded." + name, "_strip": strip, "_conv": convert, "_checked": checked,
         "_MemView": MemView, "_elem": strip, "_cython": _Cython(), "range": crange,
         "_lib": {"floor": _floor, "ceil": _ceil, "fabs": abs, "prange": lambda *a, **k: crange(*a),
                  "parallel": par},
         "_lib_missing": lib_missing, "nogil": _Nogil()}
    exec(compile(text, path, "exec"), g)
    return g, t.exported, text


def _boundary(f):
    def g(*a, **k):
        return strip(f(*a, **k))
    g.encoded = True
    return g




_cache = {}


def encoded_functions(root, name):
    if (root, name) not in _cache:
        g, exported, text = translate(os.path.join(root, "hatchet", "cython_modules", name + ".pyx"))
        _cache[(root, name)] = ({n: _boundary(g[n]) for n in exported}, text)
    return _cache[(root, name)][0]


@contextlib.contextmanager
def encoded(*names):
    """Within the block, the compiled functions are replaced by their encodings."""
    import importlib
    import hatchet
    root = os.path.dirname(os.path.dirname(os.path.abspath(hatchet.__file__)))
    undo = []
    try:
        for name in names:
            m = importlib.import_module("hatchet.cython_modules.libs." + name)
            for fn, f in encoded_functions(root, name).items():
                orig = getattr(m, fn, None)
                if orig is None:
                    continue
                for mod in [m] + [x for n, x in list(sys.modules.items()) if n.startswith("hatchet.") and x is not m]:
                    for k, v in list(vars(mod).items()):
                        if v is orig:
                            undo.append((mod, k, orig))
                            setattr(mod, k, f)
        yield
    finally:
        for mod, k, o in undo:
            setattr(mod, k, o)
