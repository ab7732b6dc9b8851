"""Stand-ins for numpy, scipy.special, math, random, multiprocessing seen by the code under
check.  Integers stay ordinary Python/numpy integers; every float or complex value is an
exact symbolic number (engine.sym.S) held in object arrays."""
import builtins
import itertools
import math as _math
import operator as _operator
import types
from copy import deepcopy as _deepcopy
from fractions import Fraction
from functools import reduce

import numpy as np

from . import poly as P
from . import sym
from .sym import S, Unsupported, is_zero


# ---------------------------------------------------------------------------- types
class _NumMeta(type):
    def __call__(cls, *a, **k):
        return cls._convert(*a, **k)

    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return c in cls._bases or issubclass(c, cls._bases)

    def __eq__(cls, o):
        return cls is o or o in getattr(cls, "_alias", ())

    def __hash__(cls):
        return id(cls)


def _scalar(x):
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return x.reshape(-1)[0]
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return x


class FloatShim(metaclass=_NumMeta):
    _bases = (float,)
    _alias = (float,)
    __name__ = "float"

    @staticmethod
    def _convert(x=0):
        x = _scalar(x)
        if isinstance(x, str):
            if x.strip().lower().lstrip("+-") in ("inf", "infinity", "nan"):
                return builtins.float(x)
            return S.c(P.norm_coef(Fraction(x)))
        v = S.of(x)
        if v is None:
            raise TypeError(f"float() argument must be a string or a real number, not {type(x).__name__!r}")
        if not v.is_real():
            if v.imag.n and not is_zero(v.imag):
                raise TypeError("can't convert complex to float")
            return v.real
        return v

    @staticmethod
    def _check(x):
        return isinstance(x, (builtins.float, np.floating)) or (isinstance(x, S))

    fromhex = float.fromhex


class ComplexShim(metaclass=_NumMeta):
    _bases = (complex,)
    _alias = (complex,)

    @staticmethod
    def _convert(x=0, y=None):
        x = _scalar(x)
        if isinstance(x, str):
            x = builtins.complex(x)
        v = S.of(x)
        if v is None:
            raise TypeError("complex() argument")
        if y is not None:
            v = v + S.I() * S.of(_scalar(y))
        return v

    @staticmethod
    def _check(x):
        return isinstance(x, (builtins.complex, np.complexfloating)) or (isinstance(x, S) and not x.is_real())


class IntShim(metaclass=_NumMeta):
    _bases = (int,)
    _alias = (int,)

    @staticmethod
    def _convert(x=0, base=None):
        if base is not None:
            return builtins.int(x, base)
        x = _scalar(x)
        if isinstance(x, S):
            v = x.trunc()
            if isinstance(v, S) and v.is_const():
                return builtins.int(v.const())
            return v
        if hasattr(x, "__symint__"):
            return x
        if hasattr(x, "__symsqrt__"):
            return x.floor()
        return builtins.int(x)

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.int) or hasattr(x, "__symint__")

    from_bytes = int.from_bytes


class NpInt(metaclass=_NumMeta):
    _bases = (np.integer,)
    _alias = (np.int64,)

    @staticmethod
    def _convert(x=0):
        x = _scalar(x)
        if isinstance(x, S):
            return IntShim(x)
        if hasattr(x, "__symint__"):
            return x
        return np.int64(x)

    @staticmethod
    def _check(x):
        return isinstance(x, np.integer)


class NpFloat(FloatShim):
    _alias = (np.float64,)

    @staticmethod
    def _check(x):
        return isinstance(x, np.floating) or isinstance(x, S)


class NpComplex(ComplexShim):
    _alias = (np.complex128,)

    @staticmethod
    def _check(x):
        return isinstance(x, np.complexfloating) or isinstance(x, S)


FLOAT_DTYPES = set()
INEXACT = (FloatShim, ComplexShim, NpFloat, NpComplex, float, complex)


def dtype_kind(dt):
    """'i', 'f', 'O', 'b' or None"""
    if dt is None:
        return None
    if isinstance(dt, type(FloatShim)):
        if dt in (FloatShim, NpFloat):
            return "f"
        if dt in (ComplexShim, NpComplex):
            return "c"
        if dt in (IntShim, NpInt):
            return "i"
    if dt is bool or dt is BoolShim:
        return "b"
    if dt is object:
        return "O"
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported(f"dtype {dt!r}")
    return {"u": "i", "i": "i", "f": "f", "c": "c", "b": "b", "O": "O"}.get(k, k)


def _has_symbolic(a):
    return a.dtype == object


def _to_exact(a):
    """object array of exact values"""
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1)
    src = a.reshape(-1)
    for i in range(src.size):
        x = src[i]
        v = S.of(x)
        if v is None:
            if hasattr(x, "__symint__"):
                v = x
            else:
                raise TypeError(f"cannot convert {type(x).__name__} to float")
        fl[i] = v
    return out


def _to_int(a):
    fl = [IntShim(x) for x in a.reshape(-1)]
    if any(hasattr(x, "__symint__") or isinstance(x, S) for x in fl):
        out = np.empty(a.shape, dtype=object)
        o = out.reshape(-1)
        for i, x in enumerate(fl):
            o[i] = x
        return out
    return np.array(fl, dtype=np.int64).reshape(a.shape)


def cast(a, kind):
    if kind in (None,):
        return norm(a)
    if kind in ("f", "c"):
        return _to_exact(np.asarray(a))
    if kind == "i":
        a = np.asarray(a)
        if a.dtype.kind in "iub":
            return a.astype(np.int64)
        return _to_int(a)
    if kind == "b":
        a = np.asarray(a)
        if a.dtype == object:
            return np.array([builtins.bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
        return a.astype(bool)
    return np.asarray(a, dtype=object)


def cast_dtype_scalar(x, dt):
    k = dtype_kind(dt)
    if k == "i":
        return IntShim(x)
    return x


class Arr(np.ndarray):
    """ndarray whose astype, sum, ... respect the exact-number model"""

    def astype(self, dt, *a, **k):
        return wrap(cast(np.asarray(self), dtype_kind(dt)))

    @property
    def real(self):
        return _vec(lambda x: S.of(x).real)(self) if self.dtype == object else np.ndarray.real.__get__(self)

    @property
    def imag(self):
        return _vec(lambda x: S.of(x).imag)(self) if self.dtype == object else wrap(np.zeros(self.shape, dtype=np.int64))

    def round(self, *a, **k):
        return _vec(lambda x: builtins.round(x, *a))(self) if self.dtype == object else np.ndarray.round(self, *a, **k)

    def mean(self, axis=None, **k):
        s = np.ndarray.sum(self, axis=axis)
        cnt = self.size if axis is None else self.shape[axis]
        return safe_div(s, cnt)

    def __truediv__(self, o):
        return safe_div(self, o)

    def __rtruediv__(self, o):
        return safe_div(o, self)

    def __itruediv__(self, o):
        r = safe_div(self, o)
        if self.dtype != object:
            raise TypeError("ufunc 'divide' output (typecode 'd') could not be coerced to int (in-place)")
        self[...] = r
        return self

    def __pow__(self, o):
        return safe_pow(self, o)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if return_scalar or a.shape == ():
            return a.reshape(-1)[0] if a.shape == () else a
        return a.view(Arr)

    def __setitem__(self, k, v):
        if self.dtype != object:
            # assigning a fractional value to an integer array truncates, as in numpy
            vv = np.asarray(v)
            if vv.dtype == object:
                vv = _to_int(vv) if vv.shape else IntShim(vv.reshape(-1)[0])
                v = vv
        elif isinstance(v, (float, complex, np.floating, np.complexfloating)):
            v = S.of(v)
        np.ndarray.__setitem__(self, k, v)

    def tolist(self):
        return np.asarray(self).tolist()

    def _extremum(self, less, axis):
        a = np.asarray(self)
        pick = lambda v: reduce(lambda x, y: (y if (y < x if less else y > x) else x), v)
        if axis is None:
            return pick(list(a.reshape(-1)))
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            out[i] = pick(list(b[i]))
        return wrap(out)

    def min(self, axis=None, **k):
        return self._extremum(True, axis) if self.dtype == object and self.size else np.ndarray.min(self, axis=axis)

    def max(self, axis=None, **k):
        return self._extremum(False, axis) if self.dtype == object and self.size else np.ndarray.max(self, axis=axis)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis) if self.dtype == object and axis is None else np.ndarray.argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis) if self.dtype == object and axis is None else np.ndarray.argmin(self, axis)

    def clip(self, min=None, max=None, **k):
        return np_clip(self, min, max) if self.dtype == object else np.ndarray.clip(self, min, max)

    def any(self, axis=None, **k):
        return _bools(self).any(axis=axis)

    def all(self, axis=None, **k):
        return _bools(self).all(axis=axis)

    def nonzero(self):
        return np_nonzero(self)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis)

    def prod(self, axis=None, **k):
        return np_prod(self, axis)

    def conj(self):
        return np_conj(self)

    def conjugate(self):
        return np_conj(self)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def sort(self, *a, **k):
        if self.dtype == object:
            self[...] = np_sort(self)
        else:
            np.ndarray.sort(self, *a, **k)

    def dot(self, o):
        return np_dot(self, o)


def wrap(a):
    if isinstance(a, np.ndarray):
        if a.dtype.kind in "fc":
            a = _to_exact(a)
        return a.view(Arr)
    return a


def norm(a):
    """array as numpy would build it from exact values: float/complex become exact objects"""
    a = np.asarray(a)
    if a.dtype.kind in "fc":
        return _to_exact(a)
    return a


def _build(x, dt=None):
    k = dtype_kind(dt)
    if isinstance(x, np.ndarray):
        a = np.array(x)
    else:
        a = _from_nested(x)
    a = cast(a, k)
    if a.dtype == object and k is None:
        # all-integer object content collapses to an integer array
        fl = a.reshape(-1)
        if fl.size and all(isinstance(v, (int, np.integer)) and not isinstance(v, S) for v in fl):
            try:
                a = np.array([int(v) for v in fl], dtype=np.int64).reshape(a.shape)
            except OverflowError:
                pass
        elif fl.size and any(isinstance(v, S) for v in fl):
            a = _to_exact(a)
    if a.size == 0 and k is None and not isinstance(x, np.ndarray):
        a = a.astype(object)  # numpy: float64 for empty
    return wrap(a)


def _from_nested(x):
    if isinstance(x, S):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (range,)):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty((0,), dtype=object)
        subs = [_from_nested(v) for v in x]
        shapes = {s.shape for s in subs}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        if any(s.dtype == object for s in subs):
            out = np.empty((len(x),) + subs[0].shape, dtype=object)
            for i, s in enumerate(subs):
                out[i] = s if s.shape else s[()]
            return out
        return np.array([np.asarray(s) for s in subs])
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    if hasattr(x, "__symint__"):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        a = np.empty((), dtype=object)
        a[()] = S.of(x)
        return a
    if hasattr(x, "__iter__") and not isinstance(x, (str, bytes, dict, set)):
        return _from_nested(list(x))
    return np.array(x)


def _vec(f):
    def g(a, *args, **kw):
        if isinstance(a, (list, tuple, range)):
            a = _build(a)
        if isinstance(a, np.ndarray):
            if a.shape == ():
                return f(a[()], *args)
            out = np.empty(a.shape, dtype=object)
            o = out.reshape(-1)
            src = a.reshape(-1)
            for i in range(src.size):
                o[i] = f(src[i], *args)
            return wrap(_maybe_int(out))
        return f(a, *args)
    return g


def _maybe_int(a):
    fl = a.reshape(-1)
    if fl.size and all(isinstance(v, (bool, np.bool_)) for v in fl):
        return a.astype(bool)
    if fl.size and all(isinstance(v, (int, np.integer)) for v in fl):
        return a.astype(np.int64)
    return a


# ---------------------------------------------------------------------------- operators
def safe_div(a, b):
    if isinstance(a, S):
        if isinstance(b, (list, tuple)):
            return a / np.array(list(b), dtype=object)
        if isinstance(b, np.ndarray):
            return _arr_div(a, b)
        return a / b
    if isinstance(a, (list, tuple)) and not isinstance(b, (S, np.ndarray, np.generic)):
        raise TypeError(f"unsupported operand type(s) for /: '{type(a).__name__}' and '{type(b).__name__}'")
    if isinstance(a, (list, tuple)):
        return _arr_div(_build(a), b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return _arr_div(a, b)
    if isinstance(b, S):
        return b.__rtruediv__(a)
    fa, fb = sym.to_frac(a), sym.to_frac(b)
    if fa is not None and fb is not None:
        if fb == 0:
            if isinstance(a, np.generic) or isinstance(b, np.generic):
                raise Unsupported("numpy division by zero")
            raise ZeroDivisionError("division by zero")
        return S.c(P.norm_coef(Fraction(fa) / Fraction(fb)))
    if hasattr(a, "__symint__") or hasattr(b, "__symint__"):
        return a / b
    sa, sb = S.of(a), S.of(b)
    if sa is not None and sb is not None:
        return sa / sb
    return a / b


def _arr_div(a, b):
    aa = a if isinstance(a, np.ndarray) else _build(a)
    bb = b if isinstance(b, np.ndarray) else _build(b)
    x = np.asarray(aa).astype(object)
    y = np.asarray(bb).astype(object)
    f = np.frompyfunc(safe_div, 2, 1)
    r = f(x, y)
    return wrap(r) if isinstance(r, np.ndarray) else r


def safe_idiv(a, b):
    """a /= b"""
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
        a[...] = safe_div(a, b)
        return a
    return safe_div(a, b)


def safe_pow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        aa = a if isinstance(a, np.ndarray) else _build(a)
        bb = b if isinstance(b, np.ndarray) else _build(b)
        if np.asarray(aa).dtype.kind in "iub" and np.asarray(bb).dtype.kind in "iub":
            return wrap(np.asarray(aa) ** np.asarray(bb))
        r = np.frompyfunc(safe_pow, 2, 1)(np.asarray(aa).astype(object), np.asarray(bb).astype(object))
        return wrap(_maybe_int(r)) if isinstance(r, np.ndarray) else r
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, S):
            return a ** b
        return S.of(a) ** b
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        if b < 0:
            if isinstance(a, np.integer) or isinstance(b, np.integer):
                raise ValueError("Integers to negative integer powers are not allowed.")
            return S.c(P.norm_coef(Fraction(int(a)) ** int(b)))
        return a ** b
    if hasattr(a, "__symint__") or hasattr(b, "__symint__"):
        return a ** b
    sa = S.of(a)
    if sa is None:
        return a ** b
    return sa ** b


def safe_pow3(a, b, m=None):
    if m is not None:
        return builtins.pow(a, b, m)
    return safe_pow(a, b)


def safe_round(x, nd=None):
    if isinstance(x, S):
        return x.__round__(nd)
    if isinstance(x, np.ndarray):
        return _vec(lambda v: safe_round(v, nd))(x)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def lit_float(s):
    return S.c(P.norm_coef(Fraction(s)))


def lit_complex(im):
    f = Fraction(im)
    return S({1 << (P.BITS * P.I_IDX): P.norm_coef(f)} if f else {}, (), complex(0, float(f)))


# ---------------------------------------------------------------------------- numpy
class BoolShim:
    pass


def _shape(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(v) for v in s)


def _filled(shape, value, dt, default="f"):
    k = dtype_kind(dt) or default
    shape = _shape(shape) if not isinstance(shape, tuple) else tuple(int(v) for v in shape)
    if k == "i":
        return wrap(np.full(shape, int(value), dtype=np.int64))
    if k == "b":
        return wrap(np.full(shape, bool(value), dtype=bool))
    out = np.empty(shape, dtype=object)
    v = S.of(value)
    fl = out.reshape(-1)
    for i in range(fl.size):
        fl[i] = v
    return wrap(out)


def np_zeros(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=None, **k):
    return _filled(shape, 1, dtype)


def np_full(shape, value, dtype=None, **k):
    if dtype is None:
        dtype = int if isinstance(value, (int, np.integer)) else float
    return _filled(shape, value, dtype)


def _like_kind(a, dtype):
    if dtype is not None:
        return dtype
    a = a if isinstance(a, np.ndarray) else _build(a)
    return int if a.dtype.kind in "iu" else (bool if a.dtype.kind == "b" else float)


def _shape_of(a):
    return (a if isinstance(a, np.ndarray) else _build(a)).shape


def np_zeros_like(a, dtype=None, **k):
    return _filled(_shape_of(a), 0, _like_kind(a, dtype))


def np_ones_like(a, dtype=None, **k):
    return _filled(_shape_of(a), 1, _like_kind(a, dtype))


def np_full_like(a, v, dtype=None, **k):
    return _filled(_shape_of(a), v, _like_kind(a, dtype))


def np_eye(n, m=None, k=0, dtype=None, **kw):
    m = n if m is None else m
    out = _filled((n, m), 0, dtype)
    one = 1 if out.dtype != object else S.c(1)
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = one
    return out


def np_array(x, dtype=None, **k):
    return _build(x, dtype)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (dtype is None):
        return x if isinstance(x, Arr) else x.view(Arr)
    return _build(x, dtype)


def np_isclose(a, b, rtol=None, atol=None, **k):
    at = S.of(atol) if atol is not None else S.c(0)
    rt = S.of(rtol) if rtol is not None else S.c(0)
    wide = (not at.is_const() or at.const() > Fraction(1, 10 ** 6)) or (not rt.is_const() or rt.const() > Fraction(1, 10 ** 4))

    def f(x, y):
        d = S.of(x) - S.of(y)
        if wide:
            # an explicit tolerance above rounding level
            return sym.W.control.compare(abs(d), at + rt * abs(S.of(y)), "<=")
        return sym.W.control.compare(d, S.c(0), "==")
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        aa, bb = np.broadcast_arrays(np.asarray(_build(a), dtype=object), np.asarray(_build(b), dtype=object))
        return np.array([f(x, y) for x, y in zip(aa.reshape(-1), bb.reshape(-1))], dtype=bool).reshape(aa.shape)
    return f(a, b)


def np_allclose(a, b, rtol=None, atol=None, **k):
    r = np_isclose(a, b, rtol, atol)
    return bool(np.all(r))


def np_array_equal(a, b, **k):
    a, b = np.asarray(_build(a)), np.asarray(_build(b))
    if a.shape != b.shape:
        return False
    return builtins.all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def np_nonzero(a):
    a = np.asarray(_build(a))
    if a.dtype == object:
        a = np.array([bool(x != 0) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return tuple(wrap(v) for v in np.nonzero(a))


def np_count_nonzero(a, **k):
    return len(np_nonzero(a)[0])


def _u1(name):
    def f(x):
        x = S.of(x) if not isinstance(x, S) else x
        if x is None:
            raise TypeError(name)
        return getattr(x, name)()
    return _vec(f)


def np_abs(a, *r, **k):
    return _vec(lambda x: builtins.abs(x))(a)


def np_power(a, b, **k):
    if isinstance(a, (list, tuple)):
        a = _build(a)
    if isinstance(b, (list, tuple, range)):
        b = _build(b)
    return safe_pow(a, b)


def np_sqrt_scalar(x):
    if hasattr(x, "__symint__") and getattr(sym.W, "int_exact", None):
        from .symint import SymSqrt
        return SymSqrt(x)
    return S.of(x).sqrt()


def np_sum(a, axis=None, **k):
    if isinstance(a, np.ndarray):
        return np.asarray(a).sum(axis=axis, **k) if axis is None else wrap(np.asarray(a).sum(axis=axis, **k))
    if hasattr(a, "__next__"):
        a = list(a)
    return np_sum(_build(a), axis=axis, **k)


def np_prod(a, axis=None, **k):
    return np.prod(np.asarray(_build(a)), axis=axis)


def np_cumsum(a, axis=None, **k):
    return wrap(np.cumsum(np.asarray(_build(a)), axis=axis))


def np_mean(a, axis=None, **k):
    return _build(a).mean(axis=axis)


def np_diag(a, k=0):
    a = _build(a)
    if a.ndim == 1 and a.dtype == object:
        out = _filled((len(a) + builtins.abs(k), len(a) + builtins.abs(k)), 0, float)
        for i in range(len(a)):
            out[i + max0(-k), i + max0(k)] = a[i]
        return out
    return wrap(np.diag(np.asarray(a), k))


def max0(x):
    return x if x > 0 else 0


def np_dot(a, b, **k):
    return _np_linear(np.dot, a, b)


def _np_linear(f, a, b):
    a, b = np.asarray(_build(a)), np.asarray(_build(b))
    if a.dtype == object or b.dtype == object:
        a, b = _to_exact(a), _to_exact(b)
    r = f(a, b)
    return wrap(r) if isinstance(r, np.ndarray) else r


def np_matmul(a, b, **k):
    return _np_linear(np.dot if np.asarray(a).ndim <= 2 and np.asarray(b).ndim <= 2 else np.matmul, a, b)


def np_argmax(a, axis=None):
    a = np.asarray(_build(a))
    if a.dtype != object:
        return np.argmax(a, axis)
    best = 0
    fl = a.reshape(-1)
    for i in range(1, fl.size):
        if fl[i] > fl[best]:
            best = i
    return best


def np_argmin(a, axis=None):
    a = np.asarray(_build(a))
    if a.dtype != object:
        return np.argmin(a, axis)
    best = 0
    fl = a.reshape(-1)
    for i in range(1, fl.size):
        if fl[i] < fl[best]:
            best = i
    return best


def np_cumprod(a, axis=None, **k):
    a = np.asarray(_build(a))
    if axis is None:
        a = a.reshape(-1)
    return wrap(np.cumprod(a, axis=axis or 0))


def np_round(a, decimals=0, **k):
    return _vec(lambda x: safe_round(S.of(x), decimals) if not isinstance(x, (int, np.integer)) else x)(a)


def np_floor(a):
    def f(x):
        v = S.of(x).floor()
        return v if isinstance(v, S) else S.c(v)
    return _vec(f)(a)


def np_ceil(a):
    def f(x):
        v = -((-S.of(x)).floor())
        return v if isinstance(v, S) else S.c(v)
    return _vec(f)(a)


def np_real(a):
    return _vec(lambda x: S.of(x).real)(a)


def np_imag(a):
    return _vec(lambda x: S.of(x).imag)(a)


def np_conj(a, *r, **k):
    return _vec(lambda x: x.conjugate() if isinstance(x, S) else x)(a)


def np_where(c, *xs):
    if not xs:
        return np_nonzero(c)
    return wrap(np.where(np.asarray(cast(_build(c), "b")), np.asarray(_build(xs[0])), np.asarray(_build(xs[1]))))


def np_searchsorted(a, v, side="left", sorter=None):
    a = _build(a)

    def one(x):
        for i in range(len(a)):
            if (side == "left" and a[i] >= x) or (side == "right" and a[i] > x):
                return i
        return len(a)
    if isinstance(v, (np.ndarray, list, tuple)):
        return wrap(np.array([one(x) for x in v], dtype=np.int64))
    return one(v)


def np_linspace(a, b, num=50, endpoint=True, **k):
    n = num - 1 if endpoint else num
    return _build([S.of(a) + (S.of(b) - S.of(a)) * i / n for i in range(num)])


def np_maximum(a, b):
    return _bin(lambda x, y: x if x >= y else y)(a, b)


def np_minimum(a, b):
    return _bin(lambda x, y: x if x <= y else y)(a, b)


def _bin(f):
    def g(a, b, **k):
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            aa, bb = np.asarray(_build(a)).astype(object), np.asarray(_build(b)).astype(object)
            r = np.frompyfunc(f, 2, 1)(aa, bb)
            return wrap(_maybe_int(r)) if isinstance(r, np.ndarray) else r
        return f(a, b)
    return g


def np_clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    return r


def np_divide(a, b, **k):
    if isinstance(a, (list, tuple)):
        a = _build(a)
    if isinstance(b, (list, tuple)):
        b = _build(b)
    return safe_div(a, b)


def np_arange(*a, dtype=None, **k):
    if builtins.all(isinstance(v, (int, np.integer)) for v in a):
        r = wrap(np.arange(*[int(v) for v in a]))
        return r if dtype is None else wrap(cast(r, dtype_kind(dtype)))
    if len(a) == 1:
        a = (0, a[0])
    st, en = S.of(a[0]), S.of(a[1])
    step = S.of(a[2]) if len(a) > 2 else S.c(1)
    out = []
    while st < en:
        out.append(st)
        st = st + step
    return _build(out)


def np_sort(a, **k):
    a = np.asarray(_build(a))
    if a.dtype != object:
        return wrap(np.sort(a, **k))
    return _build(sorted(a.reshape(-1).tolist()))


def _plain_ints(x):
    """an integer array with symbolic members becomes a plain one (the path forks over the values)"""
    if hasattr(x, "__symint__"):
        return x.__index__()
    if isinstance(x, (list, tuple, np.ndarray)):
        a = x if isinstance(x, np.ndarray) else None
        fl = a.reshape(-1).tolist() if a is not None else x
        if a is not None and a.dtype != object:
            return x
        if any(hasattr(v, "__symint__") for v in fl) and all(isinstance(v, (int, np.integer)) or hasattr(v, "__symint__") for v in fl):
            r = np.array([int(v) for v in fl], dtype=np.int64)
            return r.reshape(a.shape) if a is not None else r
    return x


def np_unique(a, **k):
    a = _plain_ints(a)
    return wrap(np.unique(np.asarray(a), **k)) if not k else np.unique(np.asarray(a), **k)


def np_outer(a, b):
    return _np_linear(np.outer, a, b)


def np_vander(*a, **k):
    raise Unsupported("vander")


def _fix_arg(x):
    if isinstance(x, type(FloatShim)):
        k = dtype_kind(x)
        return {"i": np.int64, "f": object, "c": object}[k]
    return x


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__file__ = "<engine numpy shim>"
        d = self.__dict__
        d.update(
            array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
            zeros=np_zeros, ones=np_ones, full=np_full, empty=np_zeros, zeros_like=np_zeros_like,
            ones_like=np_ones_like, full_like=np_full_like, empty_like=np_zeros_like, eye=np_eye,
            identity=lambda n, dtype=None: np_eye(n, dtype=dtype), isclose=np_isclose, allclose=np_allclose,
            array_equal=np_array_equal, nonzero=np_nonzero, flatnonzero=lambda a: np_nonzero(np.asarray(a).reshape(-1))[0],
            count_nonzero=np_count_nonzero, abs=np_abs, absolute=np_abs, fabs=np_abs, power=np_power,
            float_power=np_power, sqrt=_vec(np_sqrt_scalar), exp=_u1("exp"), log=_u1("log"), log2=_u1("log2"),
            log10=_u1("log10"), cos=_u1("cos"), sin=_u1("sin"), square=_vec(lambda x: x * x), sum=np_sum, prod=np_prod, product=np_prod,
            cumsum=np_cumsum, mean=np_mean, diag=np_diag, dot=np_dot, matmul=np_matmul, argmax=np_argmax, argmin=np_argmin, cumprod=np_cumprod,
            round=np_round, around=np_round, rint=np_round, floor=np_floor, ceil=np_ceil, real=np_real, imag=np_imag,
            conj=np_conj, conjugate=np_conj, where=np_where, searchsorted=np_searchsorted, linspace=np_linspace,
            maximum=np_maximum, minimum=np_minimum, clip=np_clip, divide=np_divide, true_divide=np_divide,
            arange=np_arange, sort=np_sort, outer=np_outer, unique=np_unique,
            complex128=NpComplex, complex64=NpComplex, complex_=NpComplex, cdouble=NpComplex,
            float64=NpFloat, float32=NpFloat, float_=NpFloat, double=NpFloat, longdouble=NpFloat,
            int64=NpInt, int32=NpInt, int_=NpInt, intp=NpInt, int8=NpInt, int16=NpInt, uint8=NpInt, uint64=NpInt,
            ndarray=np.ndarray, bool_=np.bool_, inf=float("inf"), nan=float("nan"), newaxis=None,
            vstack=_stack(np.vstack), hstack=_stack(np.hstack), concatenate=_stack(np.concatenate),
            block=_block, stack=_stack(np.stack), column_stack=_stack(np.column_stack),
            insert=_np_insert, append=_np_append, isreal=_vec(lambda x: S.of(x).is_real()),
            multiply=_bin(lambda x, y: x * y), add=_bin(lambda x, y: x + y), subtract=_bin(lambda x, y: x - y),
            max=lambda a, **k: _red(builtins.max, a, **k), min=lambda a, **k: _red(builtins.min, a, **k),
            amax=lambda a, **k: _red(builtins.max, a, **k), amin=lambda a, **k: _red(builtins.min, a, **k),
            vdot=lambda a, b: np_dot(np_conj(_build(a).reshape(-1)), _build(b).reshape(-1)),
            tile=lambda a, n: wrap(np.tile(np.asarray(_build(a)), n)),
            all=lambda a, **k: _bools(a).all(**k), any=lambda a, **k: _bools(a).any(**k),
            random=RandomShim(), linalg=LinalgShim(),
        )

    def __getattr__(self, name):
        if name == "pi":
            return sym.W.pi()
        if name == "e":
            raise Unsupported("numpy.e")
        real = getattr(np, name)
        if callable(real) and not isinstance(real, type):
            def f(*a, **k):
                a = [_plain_ints(x) for x in a]
                k = {kk: _plain_ints(v) for kk, v in k.items()}
                a = [_fix_arg(np.asarray(_build(x)) if isinstance(x, (list, tuple)) and _contains_sym(x) else x) for x in a]
                k = {kk: _fix_arg(v) for kk, v in k.items()}
                r = real(*a, **k)
                if isinstance(r, np.ndarray):
                    return wrap(r)
                return r
            f.__name__ = name
            return f
        return real


def _bools(a):
    return np.asarray(cast(_build(a), "b"))


def _red(f, a, axis=None, **k):
    a = np.asarray(_build(a))
    if axis is None:
        return f(a.reshape(-1).tolist()) if a.dtype == object else (np.max(a) if f is builtins.max else np.min(a))
    return wrap((np.max if f is builtins.max else np.min)(a, axis=axis))


def _contains_sym(x):
    for v in x:
        if isinstance(v, S):
            return True
        if isinstance(v, np.ndarray) and v.dtype == object:
            return True
        if isinstance(v, (list, tuple)) and _contains_sym(v):
            return True
    return False


def _promote(arrs):
    """numpy type promotion: mixing exact floats with ints makes all exact floats"""
    if any(a.dtype == object for a in arrs) and any(
            isinstance(v, S) for a in arrs if a.dtype == object for v in a.reshape(-1)):
        return [_to_exact(a) if a.dtype != object or True else a for a in arrs]
    if any(a.dtype == object and a.size == 0 for a in arrs):
        # empty float array promotes integers to float
        return [_to_exact(a) if not any(hasattr(v, "__symint__") for v in a.reshape(-1)) else a for a in arrs]
    return arrs


def _stack(f):
    def g(seq, *a, **k):
        dt = k.pop("dtype", None)
        arrs = _promote([np.asarray(_build(x)) for x in seq])
        r = f(arrs, *a, **k)
        if dt is not None:
            r = cast(r, dtype_kind(dt))
        return wrap(r)
    return g


def _block(rows):
    flat = []

    def collect(x):
        if isinstance(x, list):
            return [collect(v) for v in x]
        a = np.asarray(_build(x))
        flat.append(a)
        return a
    t = collect(rows)
    exact = any(a.dtype == object for a in flat)

    def conv(x):
        if isinstance(x, list):
            return [conv(v) for v in x]
        return _to_exact(x) if exact else x
    return wrap(np.block(conv(t)))


def _np_insert(a, i, v, axis=None):
    a = np.asarray(_build(a))
    if a.dtype != object:
        v = np.asarray(_build(v))
        if v.dtype == object:
            v = _to_int(v) if v.shape else np.int64(IntShim(v.reshape(-1)[0]))
    elif a.size == 0 and isinstance(v, (int, np.integer)):
        v = S.of(v)
    return wrap(np.insert(a, i, v, axis=axis))


def _np_append(a, v, axis=None):
    arrs = _promote([np.asarray(_build(a)), np.asarray(_build(v))])
    if axis is None:
        return wrap(np.concatenate([x.reshape(-1) for x in arrs]))
    return wrap(np.concatenate(arrs, axis=axis))


# ---------------------------------------------------------------------------- linalg
class LinalgShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")
        self.LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def norm(a, ord=None, axis=None, **k):
        a = _build(a)
        if axis is None and a.ndim == 1 and ord in (1, np.inf, -np.inf):
            vs = [builtins.abs(S.of(x)) for x in a]
            if ord == 1:
                return builtins.sum(vs, S.c(0))
            return builtins.max(vs) if ord > 0 else builtins.min(vs)
        if ord not in (None, 2, "fro") or axis is not None or (ord == 2 and a.ndim > 1):
            raise Unsupported("linalg.norm variant")
        t = S.c(0)
        for x in a.reshape(-1):
            v = builtins.abs(S.of(x))
            t = t + v * v
        return t.sqrt()

    @staticmethod
    def svd(a, full_matrices=True, compute_uv=True, **k):
        from .svd import svd_stub
        u, s, v = svd_stub(_build(a))
        return (u, s, v) if compute_uv else s

    @staticmethod
    def svdvals(a):
        from .svd import svd_stub
        return svd_stub(_build(a))[1]

    @staticmethod
    def det(a):
        a = _build(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        out = S.c(0)
        for j in range(n):
            minor = np.delete(np.delete(np.asarray(a), 0, 0), j, 1)
            t = S.of(a[0, j]) * LinalgShim.det(minor)
            out = out + t if j % 2 == 0 else out - t
        return out

    @staticmethod
    def inv(a):
        a = _build(a)
        n = a.shape[0]
        d = LinalgShim.det(a)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                if n == 1:
                    m = S.c(1)
                else:
                    m = LinalgShim.det(np.delete(np.delete(np.asarray(a), i, 0), j, 1))
                out[j, i] = (m if (i + j) % 2 == 0 else -m) / d
        return wrap(out)

    @staticmethod
    def matrix_power(a, n):
        r = np_eye(len(a))
        for _ in range(n):
            r = np_matmul(r, a)
        return r

    def __getattr__(self, name):
        raise Unsupported(f"numpy.linalg.{name}")


# ---------------------------------------------------------------------------- randomness
def _C():
    return sym.W.control


def _many(shape, f):
    if shape is None:
        return f()
    shape = _shape(shape)
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    for i in range(fl.size):
        fl[i] = f()
    return wrap(_maybe_int(out))


def rnd_random(size=None):
    return _many(size, lambda: _stream_u())


def _stream_u():
    return _C().draw_u()


def rnd_rand(*shape):
    return rnd_random(shape if shape else None)


def rnd_uniform(low=0, high=1, size=None):
    return _many(size, lambda: S.of(low) + (S.of(high) - S.of(low)) * _stream_u())


def rnd_randint(low, high=None, size=None, dtype=None):
    if high is None:
        low, high = 0, low
    low, high = IntShim(low), IntShim(high)
    if high <= low:
        raise ValueError("low >= high")
    return _many(size, lambda: low + _C().uniform_index(high - low))


def rnd_choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if isinstance(a, (int, np.integer)):
        vals = list(range(int(a)))
    else:
        vals = list(a) if not isinstance(a, np.ndarray) else [a[i] for i in range(len(a))]
    if not vals:
        raise ValueError("'a' cannot be empty unless no samples are taken")

    def one():
        if p is None:
            return vals[_C().uniform_index(len(vals))]
        ps = list(p)
        if len(ps) != len(vals):
            raise ValueError("'a' and 'p' must have same size")
        _check_probabilities(ps)
        return vals[_C().choose(ps)]
    if size is None:
        return one()
    if not replace:
        n = int(np.prod(_shape(size)))
        idx = list(range(len(vals)))
        if p is not None:
            raise Unsupported("weighted choice without replacement")
        out = []
        for _ in range(n):
            k = _C().uniform_index(len(idx))
            out.append(vals[idx.pop(k)])
        return _build(out).reshape(_shape(size))
    return _many(size, one)


def _check_probabilities(ps):
    """numpy raises unless the probabilities are non-negative and sum to one"""
    tot = S.c(0)
    for x in ps:
        v = S.of(x)
        if not v.is_real():
            raise TypeError("Cannot cast array data from dtype('complex128') to dtype('float64')")
        tot = tot + v
    d = tot - 1
    if not is_zero(d):
        if abs(d.sh) > 1e-6:
            raise ValueError("probabilities do not sum to 1")
        raise Unsupported("probabilities sum not decided")
    for x in ps:
        v = S.of(x)
        if v.sh.real < -1e-9:
            raise ValueError("probabilities are not non-negative")


def rnd_shuffle(x):
    n = len(x)
    for i in range(n - 1, 0, -1):
        j = _C().uniform_index(i + 1)
        if isinstance(x, np.ndarray) and x.ndim > 1:
            x[[i, j]] = x[[j, i]]
        else:
            x[i], x[j] = x[j], x[i]


def rnd_permutation(x):
    if isinstance(x, (int, np.integer)):
        a = np_arange(int(x))
    else:
        a = _build(x).copy()
    rnd_shuffle(a)
    return a


def rnd_binomial(n, p, size=None):
    n = IntShim(n)
    p = S.of(p)

    def one():
        ws = [S.c(_math.comb(n, k)) * p ** k * (S.c(1) - p) ** (n - k) for k in range(n + 1)]
        return _C().choose(ws, check=False)
    return _many(size, one)


def rnd_multinomial(n, pvals, size=None):
    def one():
        out = [0] * len(pvals)
        for _ in range(n):
            out[_C().choose(list(pvals), check=False)] += 1
        return out
    if size is None:
        return _build(one())
    return _build([one() for _ in range(int(np.prod(_shape(size))))])


def py_choices(population, weights=None, cum_weights=None, k=1):
    pop = list(population)
    if cum_weights is not None:
        weights = [cum_weights[0]] + [cum_weights[i] - cum_weights[i - 1] for i in range(1, len(cum_weights))]
    out = []
    for _ in range(k):
        if weights is None:
            out.append(pop[_C().uniform_index(len(pop))])
        else:
            ws = [S.of(w) for w in weights]
            tot = S.c(0)
            for w in ws:
                tot = tot + w
            out.append(pop[_C().choose([w / tot for w in ws], check=False)])
    return out


def py_sample(population, k):
    pop = list(population)
    out = []
    for _ in range(k):
        out.append(pop.pop(_C().uniform_index(len(pop))))
    return out


class Gen:
    """numpy Generator / RandomState stand-in"""
    random = staticmethod(rnd_random)
    random_sample = staticmethod(rnd_random)
    rand = staticmethod(rnd_rand)
    uniform = staticmethod(rnd_uniform)
    randint = staticmethod(rnd_randint)
    choice = staticmethod(rnd_choice)
    shuffle = staticmethod(rnd_shuffle)
    permutation = staticmethod(rnd_permutation)
    binomial = staticmethod(rnd_binomial)
    multinomial = staticmethod(rnd_multinomial)

    @staticmethod
    def integers(low, high=None, size=None, endpoint=False, dtype=None):
        if high is None:
            low, high = 0, low
        return rnd_randint(low, high + (1 if endpoint else 0), size)


class RandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.random")
        for k in ("random", "random_sample", "rand", "uniform", "randint", "choice", "shuffle", "permutation",
                  "binomial", "multinomial"):
            setattr(self, k, getattr(Gen, k))
        self.ranf = self.sample = rnd_random
        self.default_rng = self._default_rng
        self.RandomState = self._default_rng
        self.Generator = Gen
        self.seed = self._seed

    @staticmethod
    def _default_rng(seed=None):
        if seed is not None:
            raise Unsupported("seeded generator: the draws are not random")
        return Gen()

    @staticmethod
    def _seed(seed=None):
        if seed is not None:
            raise Unsupported("fixed seed: the draws are not random")

    def __getattr__(self, name):
        raise Unsupported(f"numpy.random.{name}")


class PyRandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("random")
        self.random = lambda: rnd_random()
        self.uniform = rnd_uniform
        self.randint = lambda a, b: a + _C().uniform_index(b - a + 1)
        self.randrange = lambda a, b=None, step=1: (list(range(a)) if b is None else list(range(a, b, step)))[
            _C().uniform_index(len(range(a)) if b is None else len(range(a, b, step)))]
        self.choice = lambda seq: seq[_C().uniform_index(len(seq))]
        self.choices = py_choices
        self.sample = py_sample
        self.shuffle = rnd_shuffle
        self.SystemRandom = lambda: self
        self.Random = lambda *a: self if not a else RandomShim._seed(a[0])
        self.seed = RandomShim._seed

    def __getattr__(self, name):
        raise Unsupported(f"random.{name}")


# ---------------------------------------------------------------------------- math, scipy
def _int_arg(n):
    if isinstance(n, S):
        if n.is_const() and Fraction(n.const()).denominator == 1:
            return int(n.const())
        raise Unsupported("symbolic argument of a combinatorial function")
    if hasattr(n, "__symint__"):
        return n.__index__()
    if isinstance(n, np.ndarray) and n.shape == ():
        n = n[()]
        return _int_arg(n)
    return int(n)


def m_factorial(n):
    if isinstance(n, S):
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = _int_arg(n)
    if n < 0:
        raise ValueError("factorial() not defined for negative values")
    return _math.factorial(n)


def float_result(exact):
    """value of a floating-point library function whose exact value is the given integer"""
    hook = getattr(sym.W, "float_error", None)
    if hook is not None:
        return hook(exact)
    return S.c(exact)


def sp_binom(n, k):
    if isinstance(n, (np.ndarray, list, tuple)) or isinstance(k, (np.ndarray, list, tuple)):
        return _bin(sp_binom)(n, k)
    n, k = _int_arg(n), _int_arg(k)
    if n < 0:
        raise Unsupported("binom of negative n")
    return float_result(_math.comb(n, k) if 0 <= k <= n else 0)


def sp_comb(n, k, exact=False, repetition=False, **kw):
    if isinstance(n, (np.ndarray, list, tuple)) or isinstance(k, (np.ndarray, list, tuple)):
        return _bin(lambda a, b: sp_comb(a, b, exact=exact, repetition=repetition))(n, k)
    n, k = _int_arg(n), _int_arg(k)
    if repetition:
        if n == 0 and k == 0:
            return 1 if exact else float_result(1)
        n = n + k - 1
    v = _math.comb(n, k) if 0 <= k <= n else 0
    return v if exact else float_result(v)


def sp_perm(n, k, exact=False):
    v = _math.perm(_int_arg(n), _int_arg(k)) if k <= n else 0
    return v if exact else float_result(v)


def sp_factorial(n, exact=False, **kw):
    if isinstance(n, (np.ndarray, list, tuple)):
        return _vec(lambda x: sp_factorial(x, exact=exact))(n)
    n = _int_arg(n)
    v = _math.factorial(n) if n >= 0 else 0
    return v if exact else float_result(v)


def sp_gamma(x):
    return float_result(_math.factorial(_int_arg(x) - 1))


def make_math():
    m = types.ModuleType("math")
    for name in ("gcd", "isqrt", "lcm"):
        setattr(m, name, getattr(_math, name))
    m.factorial = m_factorial
    m.comb = lambda n, k: _math.comb(_int_arg(n), _int_arg(k))
    m.perm = lambda n, k=None: _math.perm(_int_arg(n), None if k is None else _int_arg(k))
    m.sqrt = np_sqrt_scalar
    m.isqrt = lambda x: IntShim(np_sqrt_scalar(x)) if hasattr(x, "__symint__") and getattr(sym.W, "int_exact", None) else _math.isqrt(_int_arg(x))
    m.exp = lambda x: S.of(x).exp()
    m.log = lambda x, b=None: S.of(x).log() if b is None else S.of(x).log() / S.of(b).log()
    m.log2 = lambda x: S.of(x).log2()
    m.log10 = lambda x: S.of(x).log10()
    m.cos = lambda x: S.of(x).cos()
    m.sin = lambda x: S.of(x).sin()
    m.floor = lambda x: x.floor() if hasattr(x, "__symsqrt__") else x if isinstance(x, (int, np.integer)) else S.of(x).floor()
    m.ceil = lambda x: x.__ceil__() if hasattr(x, "__symsqrt__") else x if isinstance(x, (int, np.integer)) else -((-S.of(x)).floor())
    m.trunc = lambda x: IntShim(x)
    m.fabs = lambda x: abs(S.of(x))
    m.pow = lambda a, b: S.of(safe_pow(S.of(a), b))
    m.fsum = lambda xs: _fsum(xs)
    m.prod = lambda xs, start=1: _prod(xs, start)
    m.isclose = lambda a, b, rel_tol=None, abs_tol=None: np_isclose(a, b, rel_tol, abs_tol)
    m.hypot = lambda a, b: (S.of(a) ** 2 + S.of(b) ** 2).sqrt()
    m.inf = float("inf")
    m.nan = float("nan")
    m.isnan = lambda x: False
    m.isinf = lambda x: False
    m.gamma = sp_gamma

    def ga(name):
        if name == "pi":
            return sym.W.pi()
        raise Unsupported(f"math.{name}")
    m.__getattr__ = ga
    return m


def _fsum(xs):
    t = S.c(0)
    for x in xs:
        t = t + x
    return t


def _prod(xs, start=1):
    t = start
    for x in xs:
        t = t * x
    return t


def make_cmath():
    m = types.ModuleType("cmath")
    m.exp = lambda x: S.of(x).exp()
    m.sqrt = np_sqrt_scalar
    m.isqrt = lambda x: IntShim(np_sqrt_scalar(x)) if hasattr(x, "__symint__") and getattr(sym.W, "int_exact", None) else _math.isqrt(_int_arg(x))

    def ga(name):
        if name == "pi":
            return sym.W.pi()
        raise Unsupported(f"cmath.{name}")
    m.__getattr__ = ga
    return m


def make_scipy():
    sp = types.ModuleType("scipy.special")
    sp.binom = sp_binom
    sp.comb = sp_comb
    sp.perm = sp_perm
    sp.factorial = sp_factorial
    sp.gamma = sp_gamma

    def ga(name):
        raise Unsupported(f"scipy.special.{name}")
    sp.__getattr__ = ga
    s = types.ModuleType("scipy")
    s.special = sp
    la = LinalgShim()
    s.linalg = la
    s.__path__ = []

    def ga2(name):
        raise Unsupported(f"scipy.{name}")
    s.__getattr__ = ga2
    return s, sp, la


# ---------------------------------------------------------------------------- processes
class _Future:
    def __init__(self, v):
        self.v = v

    def result(self, timeout=None):
        return self.v

    def get(self, timeout=None):
        return self.v


def _call_copied(f, args, shared):
    """run a task on a pickled copy of its bound object, as a worker process would"""
    if shared:
        return f(*args)
    if isinstance(f, types.MethodType):
        f = types.MethodType(f.__func__, _deepcopy(f.__self__))
    return _deepcopy(f(*_deepcopy(tuple(args))))


class PoolShim:
    shared = False

    def __init__(self, processes=None, initializer=None, initargs=(), mp_context=None, max_workers=None, context=None, **k):
        n = processes if processes is not None else max_workers
        if n is not None and n <= 0:
            raise ValueError("Number of processes must be at least 1")
        self.n = n if n is not None else _C().cpu_count
        self.method = getattr(mp_context, "method", None) or getattr(context, "method", None) or "fork"
        _C().pools = getattr(_C(), "pools", [])
        _C().pools.append(self)

    def _map(self, f, items):
        items = [tuple(x) for x in items]
        if self.method == "fork" and not self.shared:
            return self._map_forked(f, items)
        return [_call_copied(f, a, self.shared) for a in items]

    def _map_forked(self, f, items):
        """forked workers start from identical random states: the j-th task of every worker
        replays the same stream (tasks dealt round-robin: one admissible schedule)"""
        C = _C()
        out = []
        nw = max(1, self.n)
        if len(items) <= 1 or nw == 1:
            return [_call_copied(f, a, False) for a in items]
        streams = {}
        for i, a in enumerate(items):
            slot = i // nw
            rec = streams.get(slot)
            save = C.branch, C.draw_u
            if rec is None:
                rec = streams[slot] = []
                res = _recorded(C, rec, lambda: _call_copied(f, a, False))
            else:
                res = _replayed(C, rec, lambda: _call_copied(f, a, False))
            out.append(res)
        return out

    def map(self, f, *its, chunksize=None, timeout=None):
        r = self._map(f, list(zip(*its)))
        return self._wrap(r)

    def _wrap(self, r):
        return r

    def imap(self, f, it, chunksize=None):
        return iter(self._map(f, [(x,) for x in it]))

    imap_unordered = imap

    def starmap(self, f, it, chunksize=None):
        return self._map(f, [tuple(x) for x in it])

    def map_async(self, f, it, **k):
        return _Future(self._map(f, [(x,) for x in it]))

    starmap_async = None

    def apply(self, f, args=(), kwds=None):
        return self._map(f, [tuple(args)])[0]

    def apply_async(self, f, args=(), kwds=None, **k):
        return _Future(self.apply(f, args))

    def submit(self, f, *a, **k):
        return _Future(self._map(f, [tuple(a)])[0])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def shutdown(self, wait=True, **k):
        pass


def _recorded(C, rec, thunk):
    b0 = C.branch

    def branch(n):
        k = b0(n)
        rec.append((n, k))
        return k
    C.branch = branch
    try:
        return thunk()
    finally:
        del C.branch


def _replayed(C, rec, thunk):
    it = iter(list(rec))
    b0 = C.branch
    w0 = len(C.weights)

    def branch(n):
        try:
            n2, k = next(it)
            if n2 != n:
                it2 = None
                return b0(n)
            return k
        except StopIteration:
            return b0(n)
    C.branch = branch
    iv = dict(C.intervals)
    try:
        return thunk()
    finally:
        del C.branch
        # the repeated draws carry no extra probability
        del C.weights[w0:]
        for u in list(C.intervals):
            if u not in iv:
                C.intervals[u] = (S.c(0), S.c(1))


class ExecutorShim(PoolShim):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        super().__init__(processes=max_workers, mp_context=mp_context)

    def _wrap(self, r):
        return iter(r)


class ThreadExecutorShim(ExecutorShim):
    shared = True


class ThreadPoolShim(PoolShim):
    shared = True


class CtxShim:
    def __init__(self, method):
        self.method = method

    def Pool(self, processes=None, *a, **k):
        return PoolShim(processes, context=self)

    def cpu_count(self):
        return _C().cpu_count


def make_multiprocessing():
    m = types.ModuleType("multiprocessing")
    m.cpu_count = lambda: _C().cpu_count
    m.Pool = PoolShim
    m.get_context = lambda method=None: CtxShim(method or "fork")
    m.set_start_method = lambda *a, **k: None
    pool = types.ModuleType("multiprocessing.pool")
    pool.Pool = PoolShim
    pool.ThreadPool = ThreadPoolShim
    m.pool = pool
    m.__path__ = []

    def ga(name):
        raise Unsupported(f"multiprocessing.{name}")
    m.__getattr__ = ga
    cf = types.ModuleType("concurrent.futures")
    cf.ProcessPoolExecutor = ExecutorShim
    cf.ThreadPoolExecutor = ThreadExecutorShim
    cf.as_completed = lambda fs: iter(list(fs))
    c = types.ModuleType("concurrent")
    c.futures = cf
    c.__path__ = []
    return m, pool, c, cf


def make_os():
    import os as _os
    m = types.ModuleType("os")

    def ga(name):
        if name == "cpu_count":
            return lambda: _C().cpu_count
        if name in ("path", "environ", "sep", "linesep", "getenv"):
            return getattr(_os, name)
        raise Unsupported(f"os.{name}")
    m.__getattr__ = ga
    return m


def make_operator():
    m = types.ModuleType("operator")
    for k in dir(_operator):
        if not k.startswith("__"):
            setattr(m, k, getattr(_operator, k))
    m.truediv = safe_div
    m.itruediv = safe_idiv
    m.pow = safe_pow
    m.matmul = np_matmul
    return m


# ---------------------------------------------------------------------------- rpy2 and R's BosonSampling (contract only)
class RMatrix:
    """an R matrix: the values fill it column by column unless asked otherwise"""

    def __init__(self, values, nrow=None, ncol=None, byrow=False):
        vals = [S.of(x) for x in values]
        if nrow is None:
            nrow = len(vals) // int(ncol) if ncol else len(vals)
        if ncol is None:
            ncol = len(vals) // int(nrow) if nrow else 0
        self.nrow, self.ncol = int(nrow), int(ncol)
        if self.nrow * self.ncol != len(vals):
            raise Unsupported("R matrix with recycled values")
        r, c = self.nrow, self.ncol
        self.columns = [[vals[i * c + j] if byrow else vals[j * r + i] for i in range(r)] for j in range(c)]


def r_boson_sampler(A, sampleSize=1, perm=False):
    """contract of BosonSampling::bosonSampler: sampleSize independent outcomes of the particles that enter by the columns of
    A (columns of a unitary matrix, one per particle), as modes counted from one; |permanent|^2 over the factorials of the
    outcome as the weight"""
    from . import claims as C
    cols = A.columns
    keys = [tuple(x.key() for x in c) for c in cols]
    norm = C.fact(*[keys.count(k) for k in set(keys)])
    n, m = len(cols), A.nrow
    if not n:
        raise ValueError("no particles")
    out = []
    for t in C.states(n, m):
        rows = [i for i, k in enumerate(t) for _ in range(k)]
        am = C.permanent([[cols[j][i] for j in range(n)] for i in rows])
        out.append((rows[::-1], am, builtins.abs(am) ** 2 / C.fact(*t)))
    vals, perms, pmf = [], [], []
    for _ in range(int(sampleSize)):
        rows, am, w = out[_C().choose([w / norm for _, _, w in out])]
        vals += [r + 1 for r in rows]
        perms.append(am)
        pmf.append(w)
    return [vals, perms if perm else None, pmf if perm else None]


def make_rpy2():
    rpy2, ro, pk = (types.ModuleType(n) for n in ("rpy2", "rpy2.robjects", "rpy2.robjects.packages"))
    rpy2.robjects, ro.packages = ro, pk
    for n in ("ComplexVector", "FloatVector", "IntVector"):
        setattr(ro, n, list)
    ro.r = types.SimpleNamespace(matrix=RMatrix)
    pk.importr = lambda name, *a, **k: types.SimpleNamespace(bosonSampler=r_boson_sampler)
    pk.isinstalled = lambda *a, **k: True
    return {"rpy2": rpy2, "rpy2.robjects": ro, "rpy2.robjects.packages": pk}


def make_modules():
    n = NumpyShim()
    s, sp, la = make_scipy()
    mp, mpp, conc, cf = make_multiprocessing()
    return {
        "numpy": n, "numpy.random": n.random, "numpy.linalg": n.linalg,
        "scipy": s, "scipy.special": sp, "scipy.linalg": la,
        "math": make_math(), "cmath": make_cmath(), "random": PyRandomShim(), "operator": make_operator(),
        "multiprocessing": mp, "multiprocessing.pool": mpp, "concurrent": conc, "concurrent.futures": cf,
        "os": make_os(), **make_rpy2(),
    }


def make_builtins(importer):
    b = dict(vars(builtins))
    b["__import__"] = importer
    b["int"] = IntShim
    b["float"] = FloatShim
    b["complex"] = ComplexShim
    b["pow"] = safe_pow3
    b["round"] = safe_round
    b["__eng_div__"] = safe_div
    b["__eng_idiv__"] = safe_idiv
    b["__eng_pow__"] = safe_pow
    b["__eng_f__"] = lit_float
    b["__eng_c__"] = lit_complex
    b["__eng_mm__"] = np_matmul
    b["print"] = lambda *a, **k: None
    b["sum"] = eng_sum
    b["range"] = eng_range
    return b


class _RangeMeta(type):
    def __call__(cls, *a):
        if getattr(sym.W, "int_exact", None) and any(hasattr(v, "__symint__") for v in a):
            from .symint import LazyRange
            return LazyRange(*a)
        return builtins.range(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)


class eng_range(metaclass=_RangeMeta):
    pass


def eng_sum(it, start=0):
    if isinstance(it, np.ndarray) and it.ndim == 1 and it.dtype != object:
        return builtins.sum(it, start)
    return builtins.sum(it, start)
