"""Environment stand-ins switched on while code runs symbolically.

  id()                      -> addresses whose order is a solver variable
  pandas is_numeric_dtype   -> object columns holding symbolic numbers are numeric
  pandas _ensure_numeric    -> lets symbolic sums through
  re.match/fullmatch/search -> InRe for symbolic strings
  math.isnan/isinf/isfinite -> False/False/True for (finite) symbolic numbers
  multiprocess.Process/Queue-> sequential, completion order a solver variable
Everything is a pass-through for ordinary values and while `active` is False.
"""
import json
import math
import operator
import re
import sys

import numpy as np
import pandas as pd
import pandas.api.types as pat
import pandas.core.dtypes.common as pdc
from pandas.core import nanops, roperator
from pandas.core.ops import array_ops

from . import proxies
from .core import Ctx, Unsupported
from .proxies import SymNum, SymStr, SymName

active = False

_is_numeric_dtype = pdc.is_numeric_dtype


def is_numeric_dtype(x):
    if active and isinstance(x, (pd.Series, pd.Index)) and x.dtype == object:
        seen = False
        for v in x.values:
            if isinstance(v, SymNum):
                seen = True
            elif isinstance(v, (str, list, dict)) or not isinstance(v, (int, float)):
                return False
        return seen or len(x) > 0
    return _is_numeric_dtype(x)


_ensure_numeric = nanops._ensure_numeric


def ensure_numeric(x):
    if isinstance(x, SymNum):
        return x
    try:
        import numpy as np
        if isinstance(x, np.ndarray) and x.dtype == object and any(
                isinstance(v, SymNum) for v in x.ravel()):
            return x
    except TypeError:
        pass
    return _ensure_numeric(x)


_maybe_null_out = nanops._maybe_null_out


def maybe_null_out(*a, **k):
    """pandas marks an all-missing object sum with None where float64 has NaN."""
    r = _maybe_null_out(*a, **k)
    if active:
        import numpy as np
        if isinstance(r, np.ndarray) and r.dtype == object:
            for i in np.ndindex(*r.shape):
                if r[i] is None:
                    r[i] = proxies.NAN
        elif r is None:
            r = proxies.NAN
    return r


def _wrap_math(name, val):
    orig = getattr(math, name)

    def f(x):
        if isinstance(x, SymNum):
            return val
        return orig(x)
    return f


_re = {n: getattr(re, n) for n in ("match", "fullmatch", "search")}


class SymMatch:
    """Truthy object standing for a successful match on a symbolic string."""

    def __init__(self, s):
        self.string = s

    def __getattr__(self, n):
        raise Unsupported("re match object .%s on a symbolic string" % n)


def _wrap_re(name):
    orig = _re[name]

    def f(pattern, string, flags=0):
        if isinstance(pattern, Pattern):
            pattern = pattern.real
        if isinstance(string, SymStr):
            if isinstance(pattern, (SymStr, SymName)):
                raise Unsupported("re.%s with a symbolic pattern" % name)
            from .regex import to_z3
            if not isinstance(pattern, str):
                flags |= pattern.flags & ~re.UNICODE
                pattern = pattern.pattern
            if flags:
                raise Unsupported("re.%s with flags on a symbolic string" % name)
            r = to_z3(pattern, name)
            import z3
            b = proxies.SymBool(z3.InRe(string.e, r))
            return SymMatch(string) if b else None
        if isinstance(string, SymName) or isinstance(pattern, (SymStr, SymName)):
            raise Unsupported("re.%s on a symbolic name" % name)
        return orig(pattern, string, flags)
    return f


class Pattern:
    """A pattern compiled by the code under test."""

    def __init__(self, real):
        self.real = real

    def _call(self, name, string, a, k):
        if isinstance(string, (SymStr, SymName)):
            if a or k:
                raise Unsupported("pattern.%s with a range on a symbolic string" % name)
            return getattr(re, name)(self.real, string)
        return getattr(self.real, name)(string, *a, **k)

    def match(self, string, *a, **k):
        return self._call("match", string, a, k)

    def fullmatch(self, string, *a, **k):
        return self._call("fullmatch", string, a, k)

    def search(self, string, *a, **k):
        return self._call("search", string, a, k)

    def __getattr__(self, name):
        v = getattr(self.real, name)
        if not callable(v):
            return v

        def f(*a, **k):
            if any(isinstance(x, (SymStr, SymName)) for x in a):
                raise Unsupported("pattern.%s on a symbolic string" % name)
            return v(*a, **k)
        return f

    def __eq__(self, o):
        return self.real == (o.real if isinstance(o, Pattern) else o)

    def __hash__(self):
        return hash(self.real)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def _compile(pattern, flags=0, _orig=re.compile):
    if isinstance(pattern, Pattern):
        pattern = pattern.real
    if isinstance(pattern, (SymStr, SymName)):
        raise Unsupported("re.compile of a symbolic string")
    r = _orig(pattern, flags)
    if (sys._getframe(1).f_globals.get("__name__") or "").split(".")[0] == "hatchet":
        return Pattern(r)
    return r


def install():
    """Wrap, once, before hatchet is imported."""
    for mod in (pat, pdc):
        mod.is_numeric_dtype = is_numeric_dtype
    nanops._ensure_numeric = ensure_numeric
    nanops._maybe_null_out = maybe_null_out
    for n, v in (("isnan", False), ("isinf", False), ("isfinite", True)):
        setattr(math, n, _wrap_math(n, v))
    for n in ("encode", "iterencode"):
        setattr(json.JSONEncoder, n, json_encode(n))
    json.JSONDecoder.decode = json_decode(json.JSONDecoder.decode)
    for n in _re:
        setattr(re, n, _wrap_re(n))
    re.compile = _compile
    for n in ("isnan", "isinf", "isfinite", "isneginf", "isposinf"):
        _np[n] = _wrap_np(n)


def _wrap_np(name):
    """np.isnan and friends on object arrays, which numpy itself refuses."""
    import numpy as np
    orig = getattr(np, name)
    sym = {"isnan": False, "isinf": False, "isfinite": True, "isneginf": False, "isposinf": False}[name]

    def one(v):
        return sym if isinstance(v, SymNum) else bool(orig(v))

    def f(x, *a, **k):
        if isinstance(x, SymNum):
            return sym
        if isinstance(x, (list, tuple)) and any(isinstance(v, SymNum) for v in x):
            x = np.array(list(x), dtype=object)
        if getattr(x, "dtype", None) == object and not a and not k:
            if isinstance(x, pd.DataFrame):
                return x.map(one)
            if isinstance(x, pd.Series):
                return pd.Series([one(v) for v in x.values], index=x.index, name=x.name, dtype=bool)
            arr = np.asarray(x, dtype=object)
            out = np.empty(arr.shape, dtype=bool)
            for i in np.ndindex(*arr.shape):
                out[i] = one(arr[i])
            return out if out.ndim else bool(out)
        return orig(x, *a, **k)
    return orig, f


_np = {}


# json: symbolic numbers travel through the text as numbered markers
_json_vals = []


def _json_out(o):
    if isinstance(o, SymNum):
        _json_vals.append(o)
        return "\x00sym%d" % (len(_json_vals) - 1)
    if isinstance(o, dict):
        return {k: _json_out(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_json_out(v) for v in o]
    return o


def _json_in(o):
    if isinstance(o, str) and o.startswith("\x00sym"):
        return _json_vals[int(o[4:])]
    if isinstance(o, dict):
        return {k: _json_in(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_json_in(v) for v in o]
    return o


def json_encode(name):
    orig = getattr(json.JSONEncoder, name)

    def encode(self, o, *a, **k):
        if active:
            o = _json_out(o)
            if "_symx" not in self.__dict__:        # what default() returns may be symbolic too
                self._symx, default = True, self.default
                self.default = lambda x: _json_out(default(x))
        return orig(self, o, *a, **k)
    return encode


def json_decode(orig):
    def decode(self, s, *a, **k):
        r = orig(self, s, *a, **k)
        return _json_in(r) if active else r
    return decode


def _zdiv(a, b):
    """a / b; a division of two plain numbers has numpy's result, as in a float column."""
    plain = (int, float, np.integer, np.floating)
    if isinstance(a, plain) and isinstance(b, plain):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    return a / b


def _arith_op(left, right, op, is_cmp=False):
    try:
        return _na_arith(left, right, op, is_cmp)
    except ZeroDivisionError:
        if op not in (operator.truediv, roperator.rtruediv):
            raise
        f = np.frompyfunc(_zdiv if op is operator.truediv else lambda a, b: _zdiv(b, a), 2, 1)
        return f(left, right)


_na_arith = array_ops._na_arithmetic_op
array_ops._na_arithmetic_op = _arith_op


def hatchet_modules():
    # readers and writers are imported where they are used: import them now, so
    # that they are patched from the first path on
    if "hatchet" in sys.modules and not hatchet_modules.loaded:
        hatchet_modules.loaded = True
        import importlib
        import pkgutil
        for sub in ("readers", "writers", "query", "util"):
            try:
                pkg = importlib.import_module("hatchet." + sub)
            except ImportError:
                continue
            for info in pkgutil.iter_modules(pkg.__path__, pkg.__name__ + "."):
                try:
                    importlib.import_module(info.name)
                except Exception:       # a check that needs it reports it
                    pass
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "hatchet" or n.startswith("hatchet."))]


hatchet_modules.loaded = False


def on():
    global active
    active = True
    _json_vals.clear()
    for n, (_, f) in _np.items():
        setattr(np, n, f)
    for m in hatchet_modules():
        m.__dict__["id"] = proxies.sym_id


def off():
    global active
    active = False
    for n, (o, _) in _np.items():
        setattr(np, n, o)
    for m in hatchet_modules():
        m.__dict__.pop("id", None)
