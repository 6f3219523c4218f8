"""The numpy module seen by the encoded code: real numpy over object arrays of symbolic reals.

Structural functions (shapes, views, concatenation, dot, cross, ...) are numpy's own, run on symbolic elements;
creation, rounding-sensitive, and LAPACK-backed functions are re-stated here in exact arithmetic."""
import builtins
import math
import types
from fractions import Fraction

import numpy as _np

import sym
import crt
from sym import Rl, Inf, SBool, EngineGap, s_and, s_or, s_not
from crt import SA, MV, FloatT, IntT, UNINIT, NAN, Nan, to_rl_array, cd, cd_any, div

np_ = _np


def kind_of(d):
    """dtype spec -> 'f', 'i', 'b', 'o', or another numpy kind; None if not given"""
    if d is None:
        return None
    if d is FloatT or d is builtins.float:
        return "f"
    if d is IntT or d is builtins.int:
        return "i"
    if d is builtins.bool:
        return "b"
    if d is object:
        return "o"
    if isinstance(d, type) and issubclass(d, _FT):
        return "f"
    try:
        k = _np.dtype(d).kind
    except TypeError:
        raise TypeError("Cannot interpret dtype")
    return {"u": "i"}.get(k, "o" if k == "O" else k)


class _FT:
    pass


def isnum(x):
    return type(x) in (int, float, bool) or isinstance(x, (_np.number, _np.bool_, Fraction))


def post(r):
    if isinstance(r, _np.ndarray):
        if r.dtype == object:
            f = r.reshape(-1) if r.flags.c_contiguous else None
            if f is not None:
                for x in f:
                    if isnum(x):
                        return to_rl_array(r)
            else:
                for x in r.flat:
                    if isnum(x):
                        return to_rl_array(r)
            return r if type(r) is SA else r.view(SA)
        if r.dtype.kind == "f":
            return to_rl_array(r)
        if r.dtype.kind in "iub":
            return r if type(r) is SA else r.view(SA)
        return r
    if isinstance(r, _np.floating):
        return cd(r)
    if isinstance(r, _np.integer):
        return int(r)
    if isinstance(r, _np.bool_):
        return builtins.bool(r)
    if type(r) is tuple:
        return tuple(post(x) for x in r)
    if type(r) is list:
        return [post(x) for x in r]
    return r


def pre(x):
    t = type(x)
    if t is MV:
        return x.view(SA)
    if x is FloatT:
        return object
    if x is IntT:
        return _np.int64
    if t is list or t is tuple:
        if builtins.any(isinstance(y, (MV, list, tuple)) for y in x):
            return t(pre(y) for y in x)
        return x
    return x


def _obj(x):
    """anything array-like -> object ndarray of Rl (plain ndarray class)"""
    a = asarray(x)
    if a.dtype != object:
        a = to_rl_array(a)
    return _np.asarray(a)


def _lift(a):
    """array-like -> array, keeping ints and bools"""
    return a if isinstance(a, _np.ndarray) else array(a)


# ------------------------------------------------------------------------------------------------- creation

def _shape(s):
    if isinstance(s, (int, _np.integer)):
        return (int(s),)
    if isinstance(s, Rl):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return tuple(crt.ci(x) for x in s)


def full(shape, v, dtype=None, order="C", **k):
    shape = _shape(shape)
    kd = kind_of(dtype)
    if kd is None:
        kd = "f" if isinstance(v, (Rl, Inf, float)) or v is UNINIT or v is NAN else ("b" if isinstance(v, builtins.bool) else ("i" if isinstance(v, int) else "o"))
    if builtins.any(x < 0 for x in shape):
        raise ValueError("negative dimensions are not allowed")
    if kd == "f" or kd == "o":
        a = _np.empty(shape, dtype=object, order=order)
        if kd == "f" and not (v is UNINIT):
            v = cd(v) if not isinstance(v, _np.ndarray) else _np.asarray(v, dtype=object)
        a[...] = v
        return a.view(SA)
    if kd == "i":
        return _np.full(shape, 0 if v is UNINIT else int(v), dtype=_np.int64).view(SA)
    if kd == "b":
        return _np.full(shape, False if v is UNINIT else builtins.bool(v), dtype=builtins.bool).view(SA)
    return _np.zeros(shape, dtype=dtype)


def zeros(shape, dtype=float, order="C", **k):
    return full(shape, Rl(0) if kind_of(dtype) in (None, "f") else 0, "d" if dtype is None else dtype, order)


def ones(shape, dtype=float, order="C", **k):
    return full(shape, Rl(1) if kind_of(dtype) in (None, "f") else 1, "d" if dtype is None else dtype, order)


def empty(shape, dtype=float, order="C", **k):
    if kind_of(dtype) == "o":
        return full(shape, None, object)
    return full(shape, UNINIT, "d" if dtype is None else dtype, order)


def _like(a, dtype):
    if dtype is not None:
        return dtype
    a = _lift(a)
    return {"O": "d", "f": "d"}.get(a.dtype.kind, a.dtype)


def zeros_like(a, dtype=None, **k): return zeros(_np.shape(_lift(a)), _like(a, dtype))
def ones_like(a, dtype=None, **k): return ones(_np.shape(_lift(a)), _like(a, dtype))
def empty_like(a, dtype=None, **k): return empty(_np.shape(_lift(a)), _like(a, dtype))
def full_like(a, v, dtype=None, **k): return full(_np.shape(_lift(a)), v, _like(a, dtype))


def eye(n, m=None, k=0, dtype=float, **kw):
    a = zeros((n, n if m is None else m), dtype)
    for i in range(a.shape[0]):
        if 0 <= i + k < a.shape[1]:
            a[i, i + k] = 1
    return a


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = crt.ci(num)
    if isinstance(a, (list, tuple, _np.ndarray)) or isinstance(b, (list, tuple, _np.ndarray)):
        a_, b_ = _obj(a), _obj(b)
        n = num - 1 if endpoint else num
        out = [a_ + (b_ - a_) * Rl(Fraction(i, n) if n else 0) for i in range(num)]
        r = _np.stack(out).view(SA)
        return r
    a, b = cd(a), cd(b)
    n = num - 1 if endpoint else num
    out = _np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a if i == 0 else (b if endpoint and i == n else a + (b - a) * Rl(Fraction(i, n) if n else 0))
    out = out.view(SA)
    if kind_of(dtype) == "i":
        out = astype(out, int)
    if retstep:
        return out, (b - a) / n
    return out


def arange(*a, dtype=None, **k):
    if builtins.all(isinstance(x, (int, _np.integer)) for x in a):
        r = _np.arange(*a).view(SA)
        return astype(r, dtype) if dtype is not None else r
    if len(a) == 1:
        a = (0, a[0])
    s = cd(a[2]) if len(a) > 2 else Rl(1)
    n = crt.trunc(((cd(a[1]) - cd(a[0])) / s).ceil())
    return to_rl_array(_np.array([cd(a[0]) + s * i for i in range(builtins.max(n, 0))], dtype=object))


def _build(x):
    """nested sequences -> (ndarray of dtype object), checking raggedness"""
    if isinstance(x, _np.ndarray):
        return x
    if hasattr(x, "__array__") and not isinstance(x, (Rl, SBool)):
        try:
            return _np.asarray(x.__array__())
        except TypeError:
            return _np.asarray(x.__array__(object))
    if isinstance(x, (list, tuple, range)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, bytes, dict))):
        items = [_build(y) for y in (x if isinstance(x, (list, tuple, range)) else [x[i] for i in range(len(x))])]
        if not items:
            return _np.empty((0,), dtype=object)
        sh = items[0].shape if isinstance(items[0], _np.ndarray) else ()
        for y in items:
            if (y.shape if isinstance(y, _np.ndarray) else ()) != sh:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = _np.empty((len(items),) + sh, dtype=object)
        for i, y in enumerate(items):
            out[i] = y
        return out
    return x


def array(x, dtype=None, copy=True, order="K", ndmin=0, **k):
    kd = kind_of(dtype)
    if isinstance(x, SA) or isinstance(x, MV):
        a = _np.array(_np.asarray(x), order=order if order else "K")
    else:
        b = _build(x)
        if isinstance(b, _np.ndarray):
            a = _np.array(b, dtype=b.dtype)
        else:
            a = _np.empty((), dtype=object)
            a[()] = b
    while a.ndim < ndmin:
        a = a[None]
    if kd == "o":
        return a if a.dtype == object else a.astype(object)
    if a.dtype == object:
        fl = a.reshape(-1)
        if kd == "f" or (kd is None and a.size == 0):
            return to_rl_array(_cdall(a) if kd == "f" else a)
        if kd is None:
            ts = {type(v) for v in fl}
            if ts <= {int, _np.int64, IntT, _np.int32}:
                return a.astype(_np.int64).view(SA)
            if ts <= {builtins.bool, SBool, _np.bool_}:
                return _np.array([builtins.bool(v) for v in fl], dtype=builtins.bool).reshape(a.shape).view(SA)
            if ts <= {str}:
                return _np.array(x)
            if ts <= {builtins.bool, SBool, int, _np.bool_}:
                return _np.array([int(v) for v in fl], dtype=_np.int64).reshape(a.shape).view(SA)
            if ts <= {Rl, Inf, int, float, builtins.bool, Fraction, _np.int64, _np.float64, _np.int32, Nan, type(UNINIT), SBool}:
                return to_rl_array(a)
            return a.view(SA)
        return astype(a.view(SA), dtype)
    if kd is None or kd == a.dtype.kind:
        return post(a)
    return astype(a.view(SA), dtype)


def _cdall(a):
    o = _np.empty(a.shape, dtype=object)
    f = o.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        f[i] = v if v is UNINIT or v is NAN else cd(v)
    return o


def asarray(x, dtype=None, order=None, **k):
    kd = kind_of(dtype)
    if isinstance(x, _np.ndarray):
        if kd is None or (kd == "f" and x.dtype == object) or (kd == "o" and x.dtype == object) or kd == x.dtype.kind or (kd == "i" and x.dtype.kind in "iu"):
            if order == "C" and not x.flags.c_contiguous:
                return _np.ascontiguousarray(x).view(SA)
            if x.dtype.kind == "f":
                return to_rl_array(x)
            return x if type(x) is SA else x.view(SA)
    return array(x, dtype)


def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype)
    return r if r.flags.c_contiguous else r.copy()


asanyarray = asarray


def astype(a, dtype):
    kd = kind_of(dtype)
    if kd == "f":
        return to_rl_array(_cdall(a) if a.dtype == object else a)
    if kd == "i":
        if a.dtype == object:
            return _np.array([crt.trunc(x) if not isnum(x) else int(x) for x in a.reshape(-1)], dtype=_np.int64).reshape(a.shape).view(SA)
        return _np.asarray(a).astype(_np.int64).view(SA)
    if kd == "b":
        if a.dtype == object:
            return _np.array([builtins.bool(x != 0) if isinstance(x, Rl) else builtins.bool(x) for x in a.reshape(-1)], dtype=builtins.bool).reshape(a.shape).view(SA)
        return _np.asarray(a).astype(builtins.bool).view(SA)
    if kd == "o":
        return _np.array(a, dtype=object)
    return _np.asarray(a).astype(dtype)


def copy(a, **k):
    return array(a)


# ------------------------------------------------------------------------------------------------- element-wise

def _map1(f, x):
    if isinstance(x, (Rl, Inf)):
        return f(x)
    if isnum(x):
        return f(cd(x))
    a = _obj(x)
    if a.ndim == 0:
        return f(a[()])
    out = _np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        o[i] = f(v)
    return out.view(SA)


def _u1(f):
    def g(x, out=None, **k):
        r = _map1(f, x)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


sqrt = _u1(lambda v: v.sqrt())
sin = _u1(lambda v: v.sin())
cos = _u1(lambda v: v.cos())
tan = _u1(lambda v: v.tan())
arccos = _u1(lambda v: v.arccos())
arcsin = _u1(lambda v: v.arcsin())
arctan = _u1(lambda v: v.arctan())
exp = _u1(lambda v: v.exp())
log = _u1(lambda v: v.log())
floor = _u1(lambda v: v.floor())
ceil = _u1(lambda v: v.ceil())
square = _u1(lambda v: v * v)


def absolute(x, **k):
    if isinstance(x, _np.ndarray) and x.dtype.kind in "iu":
        return _np.abs(_np.asarray(x)).view(SA)
    if isinstance(x, int):
        return builtins.abs(x)
    if isinstance(x, (list, tuple)):
        return absolute(array(x))
    return _map1(builtins.abs, x)


abs = absolute
fabs = absolute


def sign(x):
    def f(v):
        if v == 0: return Rl(0)
        return Rl(1) if v > 0 else Rl(-1)
    if isinstance(x, int):
        return (x > 0) - (x < 0)
    return _map1(f, x)


def _ap(f, x, dt):
    a = x if isinstance(x, _np.ndarray) else _lift(x)
    if a.ndim == 0:
        return f(a[()])
    return _np.array([f(v) for v in a.reshape(-1)], dtype=dt).reshape(a.shape).view(SA)


def isnan(x): return _ap(lambda v: isinstance(v, Nan), x, builtins.bool)
def isinf(x): return _ap(lambda v: isinstance(v, Inf), x, builtins.bool)
def isfinite(x): return _ap(lambda v: not isinstance(v, (Inf, Nan)), x, builtins.bool)


def _close(a, b, rtol, atol):
    if isinstance(a, (Inf, Nan)) or isinstance(b, (Inf, Nan)):
        return isinstance(a, Inf) and isinstance(b, Inf) and a.s == b.s
    a, b = cd(a), cd(b)
    d = a - b
    rtol, atol = cd(rtol), cd(atol)
    if rtol.q == 0:
        return s_and(d <= atol, -d <= atol)
    p, m = atol + rtol * b, atol - rtol * b
    return s_and(s_or(d <= p, d <= m), s_or(-d <= p, -d <= m))


RT, AT = Rl(Fraction(1, 10 ** 5)), Rl(Fraction(1, 10 ** 8))


def isclose(a, b, rtol=RT, atol=AT, equal_nan=False):
    A, B = _np.broadcast_arrays(_obj(a), _obj(b))
    if A.ndim == 0:
        return _close(A[()], B[()], rtol, atol)
    return _np.array([builtins.bool(_close(x, y, rtol, atol)) for x, y in zip(A.reshape(-1), B.reshape(-1))],
                     dtype=builtins.bool).reshape(A.shape).view(SA)


def allclose(a, b, rtol=RT, atol=AT, equal_nan=False):
    A, B = _np.broadcast_arrays(_obj(a), _obj(b))
    return s_and(*[_close(x, y, rtol, atol) for x, y in zip(A.reshape(-1), B.reshape(-1))])


def array_equal(a, b):
    A, B = _obj(a), _obj(b)
    if A.shape != B.shape:
        return False
    return s_and(*[x == y for x, y in zip(A.reshape(-1), B.reshape(-1))])


def all(a, axis=None, **k):
    if isinstance(a, (SBool, builtins.bool)):
        return builtins.bool(a)
    a = _lift(a)
    if a.dtype == object:
        a = astype(a, builtins.bool)
    return post(_np.all(_np.asarray(a), axis=axis, **k))


def any(a, axis=None, **k):
    if isinstance(a, (SBool, builtins.bool)):
        return builtins.bool(a)
    a = _lift(a)
    if a.dtype == object:
        a = astype(a, builtins.bool)
    return post(_np.any(_np.asarray(a), axis=axis, **k))


def clip(a, lo, hi, out=None, **k):
    def f(v, l, h):
        if l is not None and builtins.bool(v < l): v = l
        if h is not None and builtins.bool(v > h): v = h
        return v
    if isinstance(a, (Rl, Inf)) or isnum(a):
        if isinstance(lo, _np.ndarray) or isinstance(hi, _np.ndarray):
            a = _obj(a)
        else:
            return f(cd(a) if isinstance(a, Rl) or isinstance(lo, Rl) or isinstance(hi, Rl) else a, lo, hi)
    A = _obj(a)
    L = _obj(lo) if lo is not None else None
    H = _obj(hi) if hi is not None else None
    sh = _np.broadcast_shapes(A.shape, *[q.shape for q in (L, H) if q is not None])
    A = _np.broadcast_to(A, sh)
    L = _np.broadcast_to(L, sh) if L is not None else None
    H = _np.broadcast_to(H, sh) if H is not None else None
    r = _np.empty(sh, dtype=object)
    for i in _np.ndindex(*sh):
        r[i] = f(A[i], None if L is None else L[i], None if H is None else H[i])
    if out is not None:
        out[...] = r
        return out
    return r.view(SA)


def mean(a, axis=None, **k):
    a = _obj(a)
    n = a.size if axis is None else a.shape[axis]
    return post(div(_np.sum(a, axis=axis), n))


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = _obj(a), _obj(weights)
    if a.shape != w.shape:
        return post(div(_np.sum(_np.moveaxis(a, axis, -1) * w, axis=-1), _np.sum(w)))
    return post(div(_np.sum(a * w, axis=axis), _np.sum(w, axis=axis)))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = _lift(a)
    if a.dtype != object:
        return post(_np.unique(_np.asarray(a), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis))
    if axis is not None and a.ndim > 1:
        rows = [(tuple(r), i) for i, r in enumerate(_np.moveaxis(_np.asarray(a), axis, 0))]
    else:
        rows = [(v, i) for i, v in enumerate(_np.asarray(a).reshape(-1))]
    import functools

    def cmp(x, y):
        p, q = (x[0], y[0])
        p, q = (p if isinstance(p, tuple) else (p,)), (q if isinstance(q, tuple) else (q,))
        for u, v in zip(p, q):
            if builtins.bool(u < v): return -1
            if builtins.bool(v < u): return 1
        return 0
    srt = sorted(rows, key=functools.cmp_to_key(cmp))
    out, idx, cnt, inv = [], [], [], _np.zeros(len(rows), dtype=_np.int64)
    for v, i in srt:
        if out and cmp((out[-1], 0), (v, 0)) == 0:
            cnt[-1] += 1
        else:
            out.append(v); idx.append(i); cnt.append(1)
        inv[i] = len(out) - 1
    if out and isinstance(out[0], tuple):
        o = _np.empty((len(out), len(out[0])), dtype=object)
        for i, r in enumerate(out):
            o[i] = r
        if axis:
            o = _np.moveaxis(o, 0, axis)
    else:
        o = _np.empty(len(out), dtype=object)
        for i, r in enumerate(out):
            o[i] = r
    res = [o.view(SA)]
    if return_index: res.append(_np.array(idx, dtype=_np.int64).view(SA))
    if return_inverse: res.append(inv.view(SA))
    if return_counts: res.append(_np.array(cnt, dtype=_np.int64).view(SA))
    return res[0] if len(res) == 1 else tuple(res)


def sort(a, axis=-1, **k):
    return post(_np.sort(_np.asarray(array(a)), axis=axis))


def lexsort(keys, axis=-1):
    """indices sorted by the last key, ties by the ones before (stable)"""
    import functools
    ks = [list(_np.asarray(array(k))) for k in keys][::-1]

    def cmp(i, j):
        for k in ks:
            if builtins.bool(k[i] < k[j]):
                return -1
            if builtins.bool(k[j] < k[i]):
                return 1
        return 0
    return _np.array(sorted(builtins.range(len(ks[0])), key=functools.cmp_to_key(cmp)), dtype=_np.int64).view(SA)


def searchsorted(a, v, side="left", **k):
    a = _obj(a)

    def one(x):
        lo = 0
        for y in a:
            if builtins.bool(y < x) or (side == "right" and builtins.bool(y <= x)):
                lo += 1
            else:
                break
        return lo
    if isinstance(v, (list, tuple, _np.ndarray)):
        return _np.array([one(x) for x in _obj(v).reshape(-1)], dtype=_np.int64).view(SA)
    return one(cd(v))


def interp(x, xp, fp, **k):
    xp, fp = _obj(xp), _obj(fp)

    def one(v):
        if builtins.bool(v <= xp[0]): return fp[0]
        for i in range(len(xp) - 1):
            if builtins.bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
        return fp[-1]
    return _map1(one, x)


def round(x, decimals=0, **k):
    def one(v):
        if v.q is None:
            raise EngineGap("numpy.round of a symbolic value")
        return Rl(sym.norm(Fraction(builtins.round(Fraction(v.q), decimals))))
    return _map1(one, x)


around = round


def hypot(a, b):
    return sqrt(_obj(a) * _obj(a) + _obj(b) * _obj(b)) if isinstance(a, _np.ndarray) else (cd(a) * cd(a) + cd(b) * cd(b)).sqrt()


def arctan2(a, b):
    if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
        a, b = _np.broadcast_arrays(_obj(a), _obj(b))
        o = _np.empty(a.shape, object)
        for i in _np.ndindex(a.shape):
            o[i] = sym.atan2(cd(a[i]), cd(b[i]))
        return post(o)
    return sym.atan2(cd(a), cd(b))


def isscalar(x):
    return isinstance(x, (Rl, Inf)) or _np.isscalar(x)


def divide(a, b, out=None, **k):
    r = div(a if not isinstance(a, (list, tuple)) else array(a), b if not isinstance(b, (list, tuple)) else array(b))
    if out is not None:
        out[...] = r
        return out
    return r


true_divide = divide


def power(a, b):
    return crt.pow_(a if not isinstance(a, (list, tuple)) else array(a), b)


def radians(x):
    return x * (pi / 180)


def set_printoptions(*a, **k):
    pass


def may_share_memory(a, b):
    return _np.may_share_memory(a, b)


class _vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.kw = dict(signature=signature, excluded=excluded)
        self.f = None
        if pyfunc is not None:
            self.f = pyfunc
            self.v = _np.vectorize(pyfunc, **{k: v for k, v in self.kw.items() if v is not None})

    def __call__(self, *a, **k):
        if self.f is None:
            self.__init__(a[0], **{k: v for k, v in self.kw.items()})
            return self
        return post(self.v(*[array(x) if isinstance(x, (list, tuple)) else pre(x) for x in a], **k))

    def __get__(self, o, cls=None):
        if o is None:
            return self
        return lambda *a, **k: self(o, *a, **k)


vectorize = _vectorize

# ------------------------------------------------------------------------------------------------- linear algebra


class LinAlgError(ValueError):
    pass


def _detrow(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = Rl(0)
    for j in range(n):
        c = m[0][j]
        if c.q == 0:
            continue
        t = c * _detrow([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def _sq(a):
    a = _obj(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return [[cd(x) for x in r] for r in a]


def det(a):
    a = _obj(a)
    if a.ndim == 3:
        return _np.array([det(x) for x in a], dtype=object).view(SA)
    return _detrow(_sq(a))


def inv(a):
    m = _sq(a)
    n = len(m)
    d = _detrow(m)
    if builtins.bool(d == 0):
        raise LinAlgError("Singular matrix")
    out = zeros((n, n))
    if n == 1:
        out[0, 0] = 1 / d
        return out
    for i in range(n):
        for j in range(n):
            c = _detrow([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i])
            out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def solve(a, b):
    m = _sq(a)
    n = len(m)
    B = _obj(b)
    vec = B.ndim == 1
    if B.shape[0] != n:
        raise ValueError("solve: Input operand has a mismatch in its core dimension")
    rhs = [[cd(x)] for x in B] if vec else [[cd(x) for x in r] for r in B]
    if n <= 3:
        d = _detrow(m)
        if builtins.bool(d == 0):
            raise LinAlgError("Singular matrix")
        out = zeros((n, len(rhs[0])))
        for c in range(len(rhs[0])):
            for j in range(n):
                mm = [r[:j] + [rhs[i][c]] + r[j + 1:] for i, r in enumerate(m)]
                out[j, c] = _detrow(mm) / d
        return out[:, 0] if vec else out
    m = [r[:] for r in m]
    for c in range(n):
        p = next((i for i in range(c, n) if m[i][c].simp().q not in (None, 0)), None)
        if p is None:
            p = next((i for i in range(c, n) if builtins.bool(m[i][c] != 0)), None)
        if p is None:
            raise LinAlgError("Singular matrix")
        m[c], m[p] = m[p], m[c]
        rhs[c], rhs[p] = rhs[p], rhs[c]
        for i in range(n):
            if i != c and m[i][c].q != 0:
                f = (m[i][c] / m[c][c]).simp()
                if f.q == 0:
                    continue
                m[i] = [(x - f * y).simp() for x, y in zip(m[i], m[c])]
                rhs[i] = [(x - f * y) for x, y in zip(rhs[i], rhs[c])]
    out = zeros((n, len(rhs[0])))
    for i in range(n):
        for c in range(len(rhs[0])):
            out[i, c] = rhs[i][c] / m[i][i]
    return out[:, 0] if vec else out


def lstsq(a, b, rcond=None):
    A = _obj(a)
    B = _obj(b)
    At = A.T
    x = solve(_np.dot(At, A).view(SA), _np.dot(At, B).view(SA))
    return x, None, A.shape[1], None


def norm(x, ord=None, axis=None, keepdims=False):
    a = _obj(x)
    if ord is not None and not (ord == 2 and (a.ndim == 1 or axis is not None)) and ord != "fro":
        if isinstance(ord, Inf) or ord == math.inf:
            r = _np.max(_np.asarray(absolute(a)), axis=axis)
            return post(r)
        if ord == 1 and a.ndim == 1:
            return post(_np.sum(_np.asarray(absolute(a))))
        raise EngineGap("norm order")
    s = _np.sum(a * a, axis=axis, keepdims=keepdims)
    return sqrt(s) if isinstance(s, _np.ndarray) else cd(s).sqrt()


def _gapf(name):
    def f(*a, **k):
        raise EngineGap(name)
    f.__name__ = name
    return f


linalg = types.SimpleNamespace(LinAlgError=LinAlgError, det=det, inv=inv, solve=solve, lstsq=lstsq, norm=norm, eig=_gapf("eig"),
                               eigh=_gapf("eigh"), svd=_gapf("svd"), cond=_gapf("cond"), pinv=_gapf("pinv"),
                               eigvals=_gapf("eigvals"), matrix_rank=_gapf("matrix_rank"), qr=_gapf("qr"))


class finfo:
    def __init__(self, t=None):
        self.eps = Rl(Fraction(1, 2 ** 52))
        self.tiny = self.smallest_normal = Rl(Fraction(1, 2 ** 1022))
        self.max = Rl(int(_np.finfo(float).max))
        self.min = -self.max
        self.resolution = Rl(Fraction(1, 10 ** 15))


pi = Rl(Fraction(math.pi))
e = Rl(Fraction(math.e))
inf = Inf(1)
nan = NAN
float64 = double = float_ = floating = float32 = longdouble = FloatT
int64 = int32 = intp = intc = int_ = integer = uint8 = int8 = uint32 = uint64 = longlong = IntT
integer = _np.integer
bool_ = builtins.bool
ndarray = _np.ndarray
newaxis = None
random = types.SimpleNamespace(random=_gapf("random"), rand=_gapf("random"), randint=_gapf("random"), uniform=_gapf("random"),
                               seed=lambda *a: None, default_rng=_gapf("random"))
_wrapped = {}


def wrap(f):
    r = _wrapped.get(id(f))
    if r is None:
        def g(*a, **k):
            a = [pre(x) for x in a]
            k = {n: (None if n == "dtype" and kind_of(v) == "f" else pre(v)) for n, v in k.items()}
            if "dtype" in k and k["dtype"] is None:
                del k["dtype"]
            try:
                return post(f(*a, **k))
            except _np.linalg.LinAlgError as ex:
                raise LinAlgError(str(ex))
        g.__name__ = getattr(f, "__name__", "f")
        r = _wrapped[id(f)] = (g, f)
    return r[0]


class dtype:
    """np.dtype(x): the spec itself"""
    def __new__(cls, x, *a, **k):
        return x

    def __class_getitem__(cls, x):
        return cls


_OWN = {k for k in globals() if not k.startswith("_")} - {"np_", "builtins", "math", "types", "Fraction", "sym", "crt", "Rl",
                                                         "Inf", "SBool", "EngineGap", "s_and", "s_or", "s_not", "SA", "MV", "FloatT", "IntT", "UNINIT",
                                                         "NAN", "Nan", "to_rl_array", "cd", "cd_any", "div", "pre", "post", "kind_of", "isnum",
                                                         "wrap", "det", "inv", "solve", "lstsq", "norm", "LinAlgError", "astype", "RT", "AT"}


def outer(a, b, out=None):
    a, b = _obj(a).reshape(-1), _obj(b).reshape(-1)
    return array([[x * y for y in b] for x in a])


class NumpyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",):
            raise AttributeError(n)
        v = getattr(_np, n)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, _np.ufunc)) or type(v).__name__ == "_ArrayFunctionDispatcher":
            return wrap(v)
        return v


def make():
    m = NumpyModule("numpy")
    for k in _OWN:
        m.__dict__[k] = globals()[k]
    m.__dict__["min"] = wrap(_np.min)
    m.__dict__["max"] = wrap(_np.max)
    m.__dict__["sum"] = wrap(_np.sum)
    m.__dict__["__path__"] = []
    m.typing = types.SimpleNamespace(NDArray=_np.typing.NDArray if hasattr(_np, "typing") else object, ArrayLike=object, DTypeLike=object)
    return m


import numpy.typing as _npt  # noqa
MODULE = make()
MODULE.typing = types.ModuleType("numpy.typing")
MODULE.typing.__dict__.update(NDArray=_npt.NDArray, ArrayLike=object, DTypeLike=object)
