"""Runtime of the translated Cython code: memoryviews, pointers, heap, C arithmetic, cdef classes."""
import builtins
import math as _math
import operator
from fractions import Fraction

import numpy as _np

import sym
from sym import Nan, NAN, Rl, Inf, SBool, MemFault, EngineGap, NonFinite, StepLimit


class Uninit:
    """Content of memory nobody has written."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def _bad(self, *a, **k):
        raise MemFault(self.why)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __float__ = __bool__ = __pow__ = __int__ = __index__ = sqrt = _bad
    __floordiv__ = __mod__ = _bad

    def __eq__(self, o):
        return self._bad()

    def __ne__(self, o):
        return self._bad()

    def __hash__(self):
        return 0

    def __repr__(self):
        return "<%s>" % self.why


UNINIT = Uninit("use of uninitialised memory")
FREED = Uninit("use after free")


class SA(_np.ndarray):
    """An ndarray whose floating elements are symbolic reals (dtype object)."""
    __slots__ = ()

    def astype(self, dtype, *a, **k):
        import npshim
        return npshim.astype(self, dtype)

    def tobytes(self, order="C"):
        return SymBytes.of_doubles(list(_np.asarray(self).reshape(-1)))

    def copy(self, order="C"):
        return _np.array(_np.asarray(self), dtype=self.dtype, order=order).view(type(self))

    def mean(self, axis=None, **k):
        import npshim
        return npshim.mean(self, axis)

    def sum(self, axis=None, **k):
        import npshim
        return npshim.np_.sum(self.view(_np.ndarray), axis=axis, **k)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __itruediv__(self, o):
        self[...] = div(self, o)
        return self

    def __pow__(self, n):
        return pow_(self, n)

    def __setitem__(self, i, v):
        if self.dtype == object:
            v = fixval(v)
        _np.ndarray.__setitem__(self, fixidx(i), v)

    def __getitem__(self, i):
        if type(i) is not int:
            i = fixidx(i)
        r = _np.ndarray.__getitem__(self, i)
        if isinstance(r, _np.integer):
            return int(r)
        return r


class MV(SA):
    """A typed memoryview (Cython indexes it through ix/sx below)."""
    __slots__ = ()

    def __repr__(self):
        return "MV" + _np.asarray(self).__repr__()


def fixidx(i):
    t = type(i)
    if t is Rl:
        raise IndexError("only integers, slices (`:`), ellipsis and integer or boolean arrays are valid indices")
    if t is SBool:
        return bool(i)
    if t is tuple:
        return tuple(fixidx(x) if type(x) in (Rl, SBool) else x for x in i)
    if isinstance(i, _np.ndarray) and i.dtype == object and i.size:
        f = i.reshape(-1)[0]
        if isinstance(f, SBool):
            return _np.array([bool(x) for x in i.reshape(-1)]).reshape(i.shape)
    return i


def fixval(v):
    """Numbers stored into a real array become Rl."""
    t = type(v)
    if t is Rl or t is Inf or t is Uninit or t is Nan:
        return v
    if t in (int, float, bool, Fraction, SBool):
        return cd(v)
    if isinstance(v, _np.ndarray):
        if v.dtype != object:
            return to_rl_array(v)
        return v
    if isinstance(v, (list, tuple)):
        import npshim
        return npshim.array(v, dtype=float)
    if isinstance(v, (_np.integer, _np.floating, _np.bool_)):
        return cd(v)
    return v


def to_rl_array(a, cls=SA):
    out = _np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    if a.dtype == object:
        for k, x in enumerate(a.reshape(-1)):
            f[k] = x if type(x) is Rl else cd_any(x)
    else:
        for k, x in enumerate(a.reshape(-1).tolist()):
            f[k] = nan_or(x)
    return out.view(cls)


def nan_or(x):
    if isinstance(x, float) and x != x:
        return NAN
    return Rl.of(x)


def cd_any(x):
    if isinstance(x, (Inf, Uninit, Nan)):
        return x
    if isinstance(x, float) and x != x:
        return NAN
    r = Rl.of(x) if not isinstance(x, (str, type(None), list, tuple)) else None
    return x if r is None else r


# ---------------------------------------------------------------------------------------------- scalars

def F(s):
    return Rl(sym.norm(Fraction(s)))


_FC = {}


def Fc(s):
    r = _FC.get(s)
    if r is None:
        r = _FC[s] = F(s)
    return r


def cd(x):
    t = type(x)
    if t is Rl or t is Inf or t is Uninit or t is Nan:
        return x
    if t is int:
        return Rl(x)
    if isinstance(x, _np.ndarray):
        if x.size == 1:
            return cd(x.reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if t is float and x != x:
        return NAN
    if x is None or isinstance(x, (str, list, tuple, dict)):
        raise TypeError("must be real number, not " + t.__name__)
    r = Rl.of(x)
    if r is None:
        f = getattr(x, "__float__", None)
        if f is None:
            raise TypeError("must be real number, not " + t.__name__)
        return Rl.of(f())
    return r


def ci(x):
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is SBool:
        return int(bool(x))
    if t is Rl:
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(x, _np.integer):
        return int(x)
    if t is Uninit or t is Nan:
        return x
    if isinstance(x, _np.ndarray) and x.size == 1 and x.dtype != object:
        return int(x.reshape(-1)[0])
    if x is None:
        raise TypeError("an integer is required")
    if isinstance(x, int):
        return int(x)
    f = getattr(x, "__index__", None) or getattr(x, "__int__", None)
    if f is None:
        raise TypeError("an integer is required")
    return f()


def cb(x):
    if x is None:
        return 0
    return 1 if bool(x) else 0


def trunc(x):
    if isinstance(x, Rl):
        return x.trunc_int()
    if isinstance(x, Inf):
        raise NonFinite("int of infinity")
    return ci(x)


def ct(x, name):
    if x is None:
        return None
    ty = {"tuple": tuple, "list": list, "dict": dict, "bytes": bytes, "str": str}[name]
    if not isinstance(x, ty):
        raise TypeError(f"Expected {name}, got {type(x).__name__}")
    return x


def _rlop(a):
    if isinstance(a, _np.ndarray):
        return a if a.dtype == object else to_rl_array(a)
    return a if isinstance(a, (Rl, Inf, Nan)) else (cd(a) if isinstance(a, (int, float, _np.number, Fraction, SBool)) else a)


def div(a, b):
    ta, tb = type(a), type(b)
    if ta is Rl and tb is Rl:
        try:
            return a / b
        except NonFinite:       # C: x/0 is an infinity, 0/0 is nan (zero taken as +0)
            return NAN if bool(a == 0) else Inf(1 if bool(a > 0) else -1)
    a, b = _rlop(a), _rlop(b)
    if type(a) is Rl and type(b) is Rl:
        return div(a, b)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        r = _np.true_divide(_np.asarray(a, dtype=object) if isinstance(a, _np.ndarray) else a,
                            _np.asarray(b, dtype=object) if isinstance(b, _np.ndarray) else b)
        return r.view(SA) if isinstance(r, _np.ndarray) else r
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        raise TypeError("unsupported operand type(s) for /")
    return a / b


def fdiv(a, b, cdiv=False):
    if isinstance(a, _np.integer): a = int(a)
    if isinstance(b, _np.integer): b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise NonFinite("integer division by zero")
        if cdiv:
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        return a // b
    return a // b


def mod(a, b, cdiv=False):
    if isinstance(a, str):
        return a % b
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise NonFinite("integer modulo by zero")
        return a - b * fdiv(a, b, cdiv)
    if cdiv:
        a, b = cd(a), cd(b)
        return a - b * Rl((a / b).trunc_int())
    return a % b


def pow_(a, b):
    if isinstance(b, _np.integer): b = int(b)
    if isinstance(a, _np.integer): a = int(a)
    if isinstance(a, int) and isinstance(b, int):
        return a ** b if b >= 0 else Rl(1) / Rl(a ** -b)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a = _rlop(a)
        if isinstance(b, (int, Rl, float)):
            b = cd(b)
            out = _np.empty(a.shape, dtype=object)
            f = out.reshape(-1)
            for k, x in enumerate(_np.asarray(a).reshape(-1)):
                f[k] = x ** b
            return out.view(SA)
        return _np.power(a, _rlop(b))
    if isinstance(a, (int, float, Rl, _np.number, Fraction)) or not hasattr(type(a), "__pow__"):
        return cd(a) ** b
    return a ** b


_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "%": operator.imod, "&": operator.iand,
         "|": operator.ior, "^": operator.ixor, "<<": operator.ilshift, ">>": operator.irshift, "@": operator.imatmul}


def iop(op, a, b):
    if op == "/":
        if isinstance(a, _np.ndarray):
            if a.dtype != object:
                raise TypeError("ufunc 'divide' output casting")
            a[...] = div(a, b)
            return a
        return div(a, b)
    if op == "//":
        return fdiv(a, b)
    if op == "**":
        if isinstance(a, _np.ndarray):
            a[...] = pow_(a, b)
            return a
        return pow_(a, b)
    if isinstance(a, _np.ndarray) and a.dtype == object and isinstance(b, _np.ndarray):
        _IOPS[op]  # same table
        r = {"+": _np.add, "-": _np.subtract, "*": _np.multiply}.get(op)
        if r is not None:
            res = r(_np.asarray(a), _np.asarray(b))
            if res.shape != a.shape:
                raise ValueError("non-broadcastable output operand")
            a[...] = res
            return a
    return _IOPS[op](a, b)


# ---------------------------------------------------------------------------------------------- memoryviews

_KIND = {"d": object, "i": _np.int64, "b": _np.int64, "c": object, "o": object}


def mv(v, nd, kind):
    if v is None:
        return None
    t = type(v)
    if t is MV and v.ndim == nd:
        if kind == "d" and v.dtype != object:
            raise ValueError("Buffer dtype mismatch, expected 'double' but got 'long'")
        return v
    if isinstance(v, SymBytes):
        if kind != "c":
            raise ValueError("Buffer dtype mismatch")
        a = _np.empty(len(v.cells), dtype=object)
        a[:] = v.cells
        m = a.view(MV)
        return m
    if isinstance(v, bytes) and kind == "c":
        return mv(SymBytes.of_bytes(v), nd, kind)
    if isinstance(v, _np.ndarray):
        if v.ndim != nd:
            raise ValueError(f"Buffer has wrong number of dimensions (expected {nd}, got {v.ndim})")
        if kind == "d":
            if v.dtype != object:
                if v.dtype.kind == "f":
                    return to_rl_array(v, MV)
                raise ValueError("Buffer dtype mismatch, expected 'double' but got 'long'")
        elif kind == "i":
            if v.dtype.kind not in "iu":
                raise ValueError("Buffer dtype mismatch, expected 'int'")
        return v.view(MV)
    raise TypeError("a bytes-like object is required, not " + t.__name__)


def _ckint(i, n, wrap):
    if wrap and i < 0:
        i += n
        if i < 0:
            raise MemFault(f"index {i - n} out of bounds for size {n}")
        return
    if i < 0 or i >= n:
        raise MemFault(f"memoryview index {i} out of bounds for axis of size {n}")


def _checked(b, i, wrap):
    t = type(i)
    if t is int:
        if b.ndim == 0:
            raise IndexError
        _ckint(i, b.shape[0], wrap)
        return i
    if t is tuple:
        if Ellipsis in [x for x in i if x is Ellipsis]:
            return tuple(slice(None) if False else (ci(x) if not isinstance(x, slice) and x is not Ellipsis and x is not None else x) for x in i)
        out = []
        ax = 0
        for x in i:
            if isinstance(x, slice):
                out.append(x)
                ax += 1
            elif x is None:
                out.append(x)
            else:
                x = x if type(x) is int else ci(x)
                _ckint(x, b.shape[ax], wrap)
                out.append(x)
                ax += 1
        return tuple(out)
    if isinstance(i, slice) or i is Ellipsis:
        return i
    i = ci(i)
    _ckint(i, b.shape[0], wrap)
    return i


_get = _np.ndarray.__getitem__
_set = _np.ndarray.__setitem__


def _ix(b, i, wrap):
    t = type(b)
    if t is MV:
        r = _get(b, _checked(b, i, wrap))
        if isinstance(r, _np.integer):
            return int(r)
        return r
    if t is Ptr:
        return b.get_item(i)
    if b is None:
        raise TypeError("'NoneType' object is not subscriptable")
    if t is CArrRef:
        return _ix(b.a, i, wrap)
    if isinstance(b, (list, tuple, str)) and not isinstance(i, slice):
        i = ci(i) if not isinstance(i, (int,)) else i
        return b[i]
    if isinstance(b, dict):
        return b[i]
    return b[i]


def nda(v):
    return v.view(SA) if type(v) is MV and v.dtype == object else v.view(_np.ndarray) if type(v) is MV else v


def ix(b, i): return _ix(b, i, False)
def ixw(b, i): return _ix(b, i, True)


def _sx(b, i, v, wrap):
    t = type(b)
    if t is MV:
        i = _checked(b, i, wrap)
        if isinstance(v, _np.ndarray) and type(v) is not MV and v.ndim:
            # a Python object stored into a slice of a typed memoryview is converted to one C scalar
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        if b.dtype == object:
            if isinstance(v, MV) or isinstance(v, _np.ndarray):
                if v.dtype != object:
                    v = to_rl_array(v)
                tgt = _get(b, i)
                if not isinstance(tgt, _np.ndarray):
                    v = cd(v)
                elif isinstance(v, MV) and tgt.ndim >= v.ndim:
                    # slice assignment between memoryviews: extents must agree (or be 1)
                    for k in range(1, v.ndim + 1):
                        if v.shape[-k] != tgt.shape[-k] and v.shape[-k] != 1:
                            raise ValueError(f"got differing extents in dimension {tgt.ndim - k} (got {tgt.shape[-k]} and {v.shape[-k]})")
                    v = _np.array(_np.asarray(v), dtype=object)
            else:
                v = v if type(v) in (Rl, Inf, Nan, Uninit, tuple) else cd(v)
            if isinstance(v, tuple):
                o = _np.empty((), dtype=object)
                o[()] = v
                v = o
        else:
            v = v if isinstance(v, _np.ndarray) else ci(v)
        _set(b, i, v)
        return
    if t is Ptr:
        b.set_item(i, v)
        return
    if b is None:
        raise TypeError("'NoneType' object does not support item assignment")
    if t is CArrRef:
        return _sx(b.a, i, v, wrap)
    b[i] = v


def sx(b, i, v): _sx(b, i, v, False)
def sxw(b, i, v): _sx(b, i, v, True)


class CArrRef:
    __slots__ = ("a",)


def carr(dims, kind):
    if kind in ("d",):
        a = _np.empty(dims, dtype=object)
        a[...] = UNINIT
        return a.view(MV)
    return _np.zeros(dims, dtype=_np.int64).view(MV)


# ---------------------------------------------------------------------------------------------- heap and pointers

class Raw:
    """malloc result before its first typed cast"""
    __slots__ = ("n", "ptr")

    def __init__(self, n):
        self.n = n
        self.ptr = None

    def typed(self, kind):
        if self.ptr is None:
            if kind in ("c", "u4", "v"):
                self.ptr = Ptr(Buf([UNINIT] * self.n, 1), 0, kind)
            else:
                a = _np.empty(self.n // 8, dtype=object)
                a[...] = UNINIT
                self.ptr = Ptr(Buf(a, 8), 0, kind)
        return self.ptr


class Buf:
    __slots__ = ("cells", "esize", "freed", "heap")

    def __init__(self, cells, esize, heap=True):
        self.cells = cells
        self.esize = esize
        self.freed = False
        self.heap = heap


class Ptr:
    """A position in a flat buffer: array cells of one element each, or bytes (esize 1)."""
    __slots__ = ("buf", "off", "kind")

    def __init__(self, buf, off, kind):
        self.buf, self.off, self.kind = buf, off, kind

    def width(self):
        return {"u4": 4, "c": 1, "d": 8, "i": 4, "v": 1}.get(self.kind, 8) if self.buf.esize == 1 else 1

    def _at(self, i, n=1):
        if self.buf.freed:
            raise MemFault("use after free")
        k = self.off + ci(i) * self.width()
        w = self.width() * n
        if k < 0 or k + w > len(self.buf.cells):
            raise MemFault(f"pointer access at element {i} outside its object")
        return k

    def get_item(self, i):
        if isinstance(i, slice):
            a = ci(i.start or 0)
            k = self._at(a, ci(i.stop) - a)
            return SymBytes(list(self.buf.cells[k:k + ci(i.stop) - a]))
        k = self._at(i)
        if self.buf.esize != 1:
            r = self.buf.cells[k]
            return int(r) if isinstance(r, _np.integer) else r
        return load_bytes(self.buf.cells[k:k + self.width()], self.kind)

    def set_item(self, i, v):
        k = self._at(i)
        if self.buf.esize != 1:
            c = self.buf.cells
            c[k] = (v if type(v) in (Rl, Inf, Nan, Uninit) else cd(v)) if isinstance(c, _np.ndarray) and c.dtype == object else v
        else:
            self.buf.cells[k:k + self.width()] = store_bytes(v, self.kind)

    __getitem__ = get_item
    __setitem__ = set_item

    def __add__(self, n):
        return Ptr(self.buf, self.off + ci(n) * self.width(), self.kind)
    __radd__ = __add__

    def __sub__(self, n):
        if isinstance(n, Ptr):
            return (self.off - n.off) // self.width()
        return self + (-n)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.buf is self.buf and o.off == self.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self.buf)

    # vector iterators
    def __bool__(self):
        return True


def store_bytes(v, kind):
    if kind == "d":
        return [("d", v, k) for k in range(8)]
    if kind in ("u4", "i"):
        v = ci(v)
        return [("u", v & 0xFFFFFFFF, k) for k in range(4)]
    if isinstance(v, tuple):
        return [v]
    return [("b", ci(v) & 0xFF, 0)]


def load_bytes(cells, kind):
    if any(c is UNINIT or c is FREED for c in cells):
        raise MemFault("use of uninitialised memory")
    if kind == "c":
        c = cells[0]
        return c
    if kind in ("u4", "i"):
        if all(c[0] == "u" and c[2] == k for k, c in enumerate(cells)):
            return cells[0][1]
        if all(c[0] in "bu" for c in cells):
            return int.from_bytes(bytes(byte_of(c) for c in cells), "little")
        raise EngineGap("reinterpreting bytes of a double as an integer")
    if kind == "d":
        if all(c[0] == "d" and c[2] == k for k, c in enumerate(cells)):
            return cells[0][1]
        if all(c[0] in "bu" for c in cells):
            import struct
            return cd(struct.unpack("<d", bytes(byte_of(c) for c in cells))[0])
        raise EngineGap("unaligned double")
    raise EngineGap("load " + kind)


def byte_of(c):
    if c[0] == "b":
        return c[1]
    if c[0] == "u":
        return (c[1] >> (8 * c[2])) & 0xFF
    raise EngineGap("byte of a double")


class SymBytes(bytes):
    """bytes whose content is a list of cells"""

    def __new__(cls, cells):
        o = bytes.__new__(cls, len(cells))
        o.cells = cells
        return o

    @classmethod
    def of_bytes(cls, b):
        if isinstance(b, SymBytes):
            return b
        return cls([("b", x, 0) for x in b])

    @classmethod
    def of_doubles(cls, vals):
        cells = []
        for v in vals:
            cells += [("d", v, k) for k in range(8)]
        return cls(cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.cells[i])
        return byte_of(self.cells[i])

    def __add__(self, o):
        return SymBytes(self.cells + SymBytes.of_bytes(o).cells)

    def __radd__(self, o):
        return SymBytes(SymBytes.of_bytes(o).cells + self.cells)

    def eq(self, o):
        if not isinstance(o, bytes):
            return False
        o = SymBytes.of_bytes(o)
        if len(o.cells) != len(self.cells):
            return False
        k = 0
        res = True
        while k < len(self.cells):
            a, b = self.cells[k], o.cells[k]
            if a is UNINIT or b is UNINIT:
                raise MemFault("comparison of uninitialised bytes")
            if a[0] == "d" and b[0] == "d":
                if a[2] == b[2]:
                    if a[1] is not b[1] and a[2] == 0:
                        if not bool(a[1] == b[1]):
                            return False
                else:
                    raise EngineGap("unaligned compare")
            elif a[0] != "d" and b[0] != "d":
                if byte_of(a) != byte_of(b):
                    return False
            else:
                raise EngineGap("mixed compare")
            k += 1
        return res

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not self.eq(o)

    def __hash__(self):
        return 11


def malloc(n):
    n = ci(n)
    if n < 0:
        raise MemFault("negative allocation size")
    return Raw(n)


def calloc(k, n):
    raise EngineGap("calloc")


def free(p):
    if p is None:
        return
    if isinstance(p, Raw):
        p = p.typed("d")
    if p.buf.freed:
        raise MemFault("double free")
    if p.off != 0 or not p.buf.heap:
        raise MemFault("free of a pointer that was not allocated")
    p.buf.freed = True
    if isinstance(p.buf.cells, _np.ndarray) and p.buf.cells.dtype == object:
        p.buf.cells[...] = FREED


def realloc(p, n):
    if p is None:
        return malloc(n)
    if isinstance(p, Raw):
        p = p.typed("d")
    n = ci(n)
    if p.buf.freed:
        raise MemFault("realloc after free")
    if p.buf.esize == 1:
        cells = (list(p.buf.cells) + [UNINIT] * n)[:n]
    else:
        cells = _np.empty(n // 8, dtype=object)
        cells[...] = UNINIT
        k = min(len(cells), len(p.buf.cells))
        cells[:k] = p.buf.cells[:k]
    q = Ptr(Buf(cells, p.buf.esize), 0, p.kind)
    p.buf.freed = True
    if isinstance(p.buf.cells, _np.ndarray):
        p.buf.cells[...] = FREED
    return q


def _flat(b):
    root = b
    while isinstance(root.base, _np.ndarray):
        root = root.base
    root = root.view(_np.ndarray) if type(root) is not _np.ndarray else root
    if root.ndim == 1:
        return root
    if root.flags.c_contiguous:
        return root.reshape(-1)
    if root.flags.f_contiguous:
        return root.T.reshape(-1)
    raise EngineGap("address into a non-contiguous array")


def addr(b, i, wrap=False):
    t = type(b)
    if t is Ptr:
        return b + i
    if isinstance(b, Raw):
        return b.typed("d") + i
    if b is None:
        raise MemFault("address into a null view")
    if isinstance(b, Vec):
        return Ptr(Buf(b, 8, False), ci(i), "d")
    if isinstance(b, bytes):
        return cp(b, "c") + i
    if isinstance(b, _np.ndarray):
        idx = i if isinstance(i, tuple) else (i,)
        f = _flat(b)
        off = (b.__array_interface__["data"][0] - f.__array_interface__["data"][0]) // f.itemsize
        for k, x in enumerate(idx):
            x = ci(x)
            if wrap and x < 0:
                x += b.shape[k]
            if x < 0 or x > b.shape[k]:
                raise MemFault(f"address of index {x} outside axis of size {b.shape[k]}")
            off += x * b.strides[k] // b.itemsize
        if b.dtype == object and f.size and isinstance(f[0], tuple):
            return Ptr(Buf(list(f), 1, False), off, "c")
        return Ptr(Buf(f, 8 if b.dtype == object else 4, False), off, "d" if b.dtype == object else "i")
    raise EngineGap("address of " + t.__name__)


def addrw(b, i):
    return addr(b, i, True)


class AttrBuf:
    """one-element buffer over an object's scalar attribute"""

    def __init__(self, o, n):
        self.o, self.n = o, n

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return getattr(self.o, self.n)

    def __setitem__(self, i, v):
        setattr(self.o, self.n, v)


def addrattr(o, n):
    v = getattr(o, n)
    if isinstance(v, _np.ndarray):
        return addr(v, 0)
    if isinstance(v, Struct):
        return v
    return Ptr(Buf(AttrBuf(o, n), 8, False), 0, "d")


def cp(v, kind, cast=False):
    if v is None:
        return None
    t = type(v)
    if t is Ptr:
        if v.kind == kind or kind in ("v",):
            return v
        if v.buf.esize == 1 and kind in ("c", "u4", "d", "i"):
            return Ptr(v.buf, v.off, kind)
        if v.buf.esize != 1 and kind in ("c",) and cast:
            # bytes of doubles
            cells = []
            for x in v.buf.cells[v.off:]:
                cells += store_bytes(x, "d")
            return Ptr(Buf(cells, 1, False), 0, "c")
        return v
    if t is Raw:
        if kind == "v":
            return v
        return v.typed("d" if kind in ("d", "o") else kind)
    if isinstance(v, _np.ndarray):
        return addr(v, 0 if v.ndim <= 1 else (0,) * v.ndim)
    if isinstance(v, bytes):
        return Ptr(Buf(SymBytes.of_bytes(v).cells + [("b", 0, 0)], 1, False), 0, "c")
    if isinstance(v, int):
        return v
    return v


def ptrview(p, dims, kind):
    if isinstance(p, Raw):
        p = p.typed("d")
    if p is None:
        raise ValueError("Cannot create cython.array from NULL pointer")
    n = 1
    for d in dims:
        n *= ci(d)
    if any(ci(d) <= 0 for d in dims):
        raise ValueError("Invalid shape in axis")
    if p.buf.freed:
        raise MemFault("view of freed memory")
    if p.buf.esize == 1:
        raise EngineGap("view over bytes")
    if p.off < 0 or p.off + n > len(p.buf.cells):
        raise MemFault("view larger than the memory it covers")
    return p.buf.cells[p.off:p.off + n].reshape(tuple(ci(d) for d in dims)).view(MV)


def _units(p, n):
    e = p.buf.esize
    if n % e:
        raise EngineGap("partial element copy")
    return n // e


def memcpy(d, s, n):
    n = ci(n)
    if n == 0:
        return d
    if n < 0:
        raise MemFault("negative copy size")
    d, s = cp(d, "v"), cp(s, "v")
    if isinstance(d, Raw): d = d.typed("d" if s.buf.esize == 8 else "c")
    if isinstance(s, Raw): s = s.typed("d")
    if d is None or s is None:
        raise MemFault("memcpy with a null pointer")
    for p in (d, s):
        if p.buf.freed:
            raise MemFault("use after free")
        if p.off < 0 or p.off + _units(p, n) > len(p.buf.cells):
            raise MemFault("memcpy outside its object")
    if d.buf.esize == s.buf.esize:
        k = _units(d, n)
        tmp = [s.buf.cells[s.off + q] for q in range(k)]
        for q in range(k):
            d.buf.cells[d.off + q] = tmp[q]
    elif d.buf.esize == 1:
        k = _units(s, n)
        out = []
        for q in range(k):
            out += store_bytes(s.buf.cells[s.off + q], "d")
        d.buf.cells[d.off:d.off + n] = out
    else:
        for q in range(_units(d, n)):
            d.buf.cells[d.off + q] = load_bytes(s.buf.cells[s.off + 8 * q:s.off + 8 * q + 8], "d")
    return d


def memset(d, v, n):
    d = cp(d, "v")
    if ci(v) != 0:
        raise EngineGap("memset with a non-zero byte")
    if isinstance(d, Raw):
        d = d.typed("d")
    k = _units(d, ci(n))
    if d.off + k > len(d.buf.cells):
        raise MemFault("memset outside its object")
    for q in range(k):
        d.buf.cells[d.off + q] = Rl(0) if d.buf.esize == 8 else (0 if d.buf.esize != 1 else ("b", 0, 0))
    return d


def memcmp(a, b, n):
    a, b = cp(a, "c"), cp(b, "c")
    n = ci(n)
    for p in (a, b):
        if p.off < 0 or p.off + n > len(p.buf.cells):
            raise MemFault("memcmp outside its object")
    for k in range(n):
        x, y = a.buf.cells[a.off + k], b.buf.cells[b.off + k]
        if x is UNINIT or y is UNINIT:
            raise MemFault("use of uninitialised memory")
        x, y = byte_of(x), byte_of(y)
        if x != y:
            return -1 if x < y else 1
    return 0


class Cell:
    """a C scalar whose address is taken"""
    __slots__ = ("buf",)

    def __init__(self, v=UNINIT):
        self.buf = Buf([v], 8, False)

    def get(self):
        return self.buf.cells[0]

    def set(self, v):
        self.buf.cells[0] = v

    def ptr(self):
        return Ptr(self.buf, 0, "d")


def cell(v=UNINIT):
    return Cell(v)


class Vec(list):
    """std::vector<double>"""

    def __init__(self, n=0, v=None):
        if isinstance(n, Vec):
            list.__init__(self, n)
        else:
            list.__init__(self, [Rl(0) if v is None else v for _ in range(ci(n))])

    def size(self): return len(self)
    def push_back(self, v): self.append(v if isinstance(v, (int, tuple)) else cd(v))
    def begin(self): return ("it", self, 0)
    def end(self): return ("it", self, len(self))
    def empty(self): return not self
    def back(self): return self[len(self) - 1]
    def front(self): return self[0]
    def resize(self, n):
        while len(self) > n: list.pop(self)
        while len(self) < n: self.append(Rl(0))

    def reserve(self, n): pass

    def pop_back(self):
        if not self:
            raise MemFault("pop_back of an empty vector")
        list.pop(self)

    def insert(self, it, v):
        list.insert(self, it[2], cd(v))

    def __getitem__(self, i):
        i = ci(i)
        if i < 0 or i >= len(self):
            raise MemFault(f"vector index {i} out of bounds for size {len(self)}")
        return list.__getitem__(self, i)

    def __setitem__(self, i, v):
        i = ci(i)
        if i < 0 or i >= len(self):
            raise MemFault(f"vector index {i} out of bounds for size {len(self)}")
        list.__setitem__(self, i, v)

    def clear(self): list.clear(self)


def _vec_of(elem):
    import cpp
    return cpp.vector_of(elem)


Vec.of = staticmethod(_vec_of)


def vcopy(v):
    if type(v).__module__ == "cpp":
        return v.copy()
    return Vec(v)


# ---------------------------------------------------------------------------------------------- cdef classes

class Attr:
    __slots__ = ("name", "spec", "vis")

    def __init__(self, name, spec, vis):
        self.name, self.spec, self.vis = name, spec, vis

    def default(self):
        k = self.spec[0]
        if k == "d":
            return Rl(0)
        if k in ("i", "b", "c"):
            return 0
        if k == "arr":
            a = carr(self.spec[1], self.spec[2])
            if self.spec[2] == "d":
                a[...] = Rl(0)
            return a
        if k == "vec":
            return Vec()
        return None

    def __get__(self, o, cls=None):
        if o is None:
            return self
        v = o._cy.get(self.name)
        if v is None and self.spec[0] == "mv" and self.name not in o._cy_set:
            raise AttributeError("Memoryview is not initialized")
        return v

    def __set__(self, o, v):
        k = self.spec[0]
        if k == "d":
            v = cd(v)
        elif k in ("i", "c"):
            v = ci(v)
        elif k == "b":
            v = cb(v)
        elif k == "mv":
            v = mv(v, self.spec[1], self.spec[2])
            o._cy_set.add(self.name)
        elif k == "arr":
            a = o._cy[self.name]
            if isinstance(v, (list, tuple)):
                if len(v) != a.shape[0]:
                    raise IndexError("not enough values found during array assignment")
                for q, x in enumerate(v):
                    _set(a, q, cd(x) if a.dtype == object else ci(x))
            else:
                _set(a, slice(None), _np.array(v))
            return
        elif k == "vec":
            v = Vec(v)
        elif k == "ptr":
            if isinstance(v, Raw):
                v = v.typed("d")
        o._cy[self.name] = v


def attr(name, spec, vis):
    return Attr(name, spec, vis)


def fresh_object(cls, a, k):
    o = object.__new__(cls)
    o._cy = {}
    o._cy_set = set()
    for c in reversed(cls.__mro__):
        for n, v in vars(c).items():
            if isinstance(v, Attr):
                o._cy[n] = v.default()
    for c in reversed(cls.__mro__):
        f = vars(c).get("__cinit__")
        if f is not None:
            co = f.__code__
            if co.co_argcount > 1 or co.co_flags & 0x0C:
                f(o, *a, **k)
            else:
                f(o)
    return o


class CyObject:
    __slots__ = ("_cy", "_cy_set", "__weakref__")

    def __new__(cls, *a, **k):
        return fresh_object(cls, a, k)

    def __init__(self, *a, **k):
        pass


class Struct:
    pass


def struct(name, fields):
    class S(Struct):
        def __init__(self, *a, **kw):
            kw.update(zip([n for n, _ in fields], a))
            for n, sp in fields:
                object.__setattr__(self, n, Attr(n, sp, "public").default() if sp[0] != "d" else UNINIT)
            for n, v in kw.items():
                setattr(self, n, v)
    S.__name__ = name
    return S


def structref(v):
    if not isinstance(v, Struct):
        raise EngineGap("address of an object")
    return v


def cdefault(name, f):
    try:
        c = f()
    except Exception:
        return None
    if isinstance(c, type) and issubclass(c, Struct):
        return c()
    return None


# ---------------------------------------------------------------------------------------------- misc

MAX_TICKS = 3000


def tick():
    e = sym.ENG
    if e is None:
        return
    e.ticks = getattr(e, "ticks", 0) + 1
    if e.ticks > getattr(e, "max_ticks", MAX_TICKS):
        raise StepLimit("loop exceeds the unwinding bound of %d iterations" % getattr(e, "max_ticks", MAX_TICKS))


def it(x):
    return x


def gap(msg):
    raise EngineGap(msg)


class HashVal(int):
    """hash value of a structure: equal exactly when the structures are equal (no collisions assumed)"""

    def __new__(cls, key):
        o = int.__new__(cls, 7)
        o.key = key
        return o

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return deep_eq(self.key, o.key)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 7


def deep_eq(a, b):
    if a is b:
        return True
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        raise EngineGap("hash of an array")
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not deep_eq(x, y):
                return False
        return True
    return bool(a == b)


def hash_(x):
    if isinstance(x, _np.ndarray):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    if isinstance(x, (list, dict, set)):
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    if isinstance(x, tuple):
        for q in x:
            if isinstance(q, (list, dict, set, _np.ndarray)):
                raise TypeError(f"unhashable type: '{type(q).__name__}'")
        return HashVal(x)
    if isinstance(x, (bytes, Rl)):
        return HashVal(x)
    if hasattr(type(x), "__hash__") and "__hash__" in {k for c in type(x).__mro__ if c is not object for k in vars(c)}:
        return type(x).__hash__(x)
    return builtins.hash(x)


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Rl, Inf, Nan, float))

    def __subclasscheck__(cls, c):
        return c in (Rl, Inf, float, FloatT) or type.__subclasscheck__(cls, c)


class FloatT(metaclass=FloatMeta):
    """stands for builtins.float / numpy.float64"""

    def __new__(cls, x=0):
        if isinstance(x, str):
            v = float(x)
            if v in (_math.inf, -_math.inf):
                return Inf(1 if v > 0 else -1)
            if v != v:
                return NAN
            return F(x)
        return cd(x)


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class IntT(metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if a or isinstance(x, (str, bytes)):
            return int(x, *a)
        return trunc(x) if not isinstance(x, _np.ndarray) else trunc(x.reshape(-1)[0])


def round_(x, nd=None):
    if isinstance(x, (Rl, Inf, Nan)):
        if x.q is None:
            raise EngineGap("round of a symbolic value")
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def sum_(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def pymin(*a, **k):
    return builtins.min(*a, **k)


class LRU:
    """functools.lru_cache(maxsize=None): same key -> same object"""

    def __init__(self, f):
        self.f = f
        self.d = []
        if sym.ENG is None:
            sym.RESET_HOOKS.append(self.cache_clear)
        self.__wrapped__ = f
        self.__name__ = getattr(f, "__name__", "cached")
        self.__doc__ = None

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        for x in a:
            if isinstance(x, (_np.ndarray, list, dict, set)):
                raise TypeError("unhashable type: '%s'" % type(x).__name__)
        for kk, v in self.d:
            if deep_eq(kk, key):
                return v
        v = self.f(*a, **k)
        self.d.append((key, v))
        return v

    def __get__(self, o, cls=None):
        if o is None:
            return self
        import functools
        b = functools.partial(self.__call__, o)
        return BoundLRU(self, o)

    def cache_clear(self):
        self.d = []

    def cache_info(self):
        return (0, 0, None, len(self.d))


class BoundLRU:
    def __init__(self, l, o):
        self.l, self.o = l, o

    def __call__(self, *a, **k):
        return self.l(self.o, *a, **k)

    def cache_clear(self):
        self.l.cache_clear()


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return LRU(maxsize)
    return LRU


HELPERS = dict(F=Fc, cd=cd, ci=ci, cb=cb, trunc=trunc, ct=ct, div=div, divp=div, fdiv=fdiv, mod=mod, pow=pow_, iop=iop,
               mv=mv, ix=ix, nda=nda, ixw=ixw, sx=sx, sxw=sxw, carr=carr, addr=addr, addrw=addrw, addrattr=addrattr, cp=cp,
               ptrview=ptrview, cell=cell, vec=Vec, vcopy=vcopy, attr=attr, CyObject=CyObject, struct=struct,
               cdefault=cdefault, structref=structref, tick=tick, iter=it, gap=gap, UNINIT=UNINIT, bytes=bytes)
