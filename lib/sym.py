"""Symbolic values and the path explorer.

`Rl` stands for a C double / Python float in real arithmetic (the assumption 'floats as reals' is stated in every
evidence file); `SBool` for a condition.  Evaluating an undecided SBool asks the solver which outcomes are feasible
under the path condition and forks.  Every claim is a query `path condition and not claim` put to z3."""
import math
import time
from fractions import Fraction

import z3

from poly import Poly, Rat, TooBig, norm, unpack, BITS

# ---------------------------------------------------------------------------------------------------- exceptions


class PathAbort(BaseException):
    """The current path is over (infeasible, or a violation was recorded)."""


class NonFinite(ZeroDivisionError):
    """A real operation has no finite value here (division by zero, square root of a negative number)."""


class MemFault(BaseException):
    """The code reads or writes outside an object (the shipped build has no bounds checks)."""


class EngineGap(BaseException):
    """The encoding does not cover what the code does here; the run is inconclusive."""


class StepLimit(BaseException):
    """A loop went past the stated unwinding bound."""


ENG = None  # current Engine
RESET_HOOKS = []  # run at the start of every path (module-level caches of the encoded code)


def eng():
    if ENG is None:
        raise EngineGap("symbolic value used outside an exploration")
    return ENG


# ---------------------------------------------------------------------------------------------------- numbers

def to_q(x):
    if isinstance(x, Fraction):
        return norm(x)
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise OverflowError
        if x.is_integer():
            return int(x)
        return Fraction(x)
    try:
        import numpy as np
        if isinstance(x, (np.integer, np.bool_)):
            return int(x)
        if isinstance(x, np.floating):
            return to_q(float(x))
    except ImportError:
        pass
    return None


class Nan:
    """NaN: propagates through arithmetic, compares false; a check that meets it fails."""

    def _same(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pos__ = _same
    __pow__ = __rpow__ = __floordiv__ = __mod__ = _same
    sqrt = sin = cos = tan = arccos = arcsin = arctan = exp = log = fabs = square = item = copy = __copy__ = __deepcopy__ = tolist = _same

    def __float__(self):
        return math.nan

    def _f(self, *a): return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o): return True
    def __bool__(self): return True
    def __hash__(self): return 7
    def isnan(self): return True
    def isfinite(self): return False
    def __repr__(self): return "nan"


NAN = Nan()


class Inf:
    """+-infinity as produced by float('inf') / np.inf / C INFINITY."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __neg__(self):
        return Inf(-self.s)

    def __pos__(self):
        return self

    def __abs__(self):
        return Inf(1)

    def __float__(self):
        return math.inf * self.s

    def __repr__(self):
        return "inf" if self.s > 0 else "-inf"

    def __hash__(self):
        return 0

    def _k(self, o):
        return o.s if isinstance(o, Inf) else 0

    def __lt__(self, o): return self.s < self._k(o)
    def __gt__(self, o): return self.s > self._k(o)
    def __le__(self, o): return self.s <= self._k(o)
    def __ge__(self, o): return self.s >= self._k(o)
    def __eq__(self, o): return isinstance(o, Inf) and o.s == self.s
    def __ne__(self, o): return not self == o

    def __add__(self, o):
        if isinstance(o, Nan) or isinstance(o, Inf) and o.s != self.s:
            return NAN
        return self
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Inf):
            return Inf(self.s * o.s)
        if isinstance(o, Nan):
            return o
        o = Rl.of(o)
        if bool(o == 0):
            return NAN
        return Inf(self.s if bool(o > 0) else -self.s)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Inf, Nan)):
            return NAN
        return self * o

    def __rtruediv__(self, o):
        return Rl.of(0)

    def __pow__(self, n):
        n = n if isinstance(n, int) else (n.q if isinstance(n, Rl) else None)
        if n is None:
            raise EngineGap("infinity to a symbolic power")
        return Rl.of(1) if n == 0 else Rl.of(0) if n < 0 else Inf(1 if self.s > 0 or n % 2 == 0 else -1)


class Rl:
    """A real: constant (q) or an expression node (op, args)."""
    __slots__ = ("q", "op", "a", "_rat", "_z", "__weakref__")

    def __init__(self, q=None, op=None, a=None):
        self.q = q
        self.op = op
        self.a = a
        self._rat = None
        self._z = None

    def __hash__(self):
        return 7

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Rl):
            return x
        if isinstance(x, Inf):
            return x
        if isinstance(x, SBool):
            return Rl(1) if bool(x) else Rl(0)
        try:
            q = to_q(x)
        except OverflowError:
            if x != x:
                raise NonFinite("nan")
            return Inf(1 if x > 0 else -1)
        if q is None:
            return None
        return Rl(q)

    @staticmethod
    def node(op, *a):
        return Rl(None, op, a)

    # -- normal form
    def rat(self):
        r = self._rat
        if r is None:
            if self.q is not None:
                r = Rat.const(self.q)
            else:
                r = _rat_of(self)
            self._rat = r
        return r

    def simp(self):
        """Constant-fold through the normal form when it is cheap."""
        if self.q is None:
            try:
                r = self.rat()
            except TooBig:
                return self
            if r.is_const():
                return Rl(norm(r.n.const_val()))
        return self

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, Inf):
            return NotImplemented
        if not isinstance(o, Rl):
            if getattr(o, "ndim", 0):
                return NotImplemented
            if isinstance(o, complex) or o is None:
                return NotImplemented
            oo = Rl.of(o)
            if oo is None:
                return NotImplemented
            if isinstance(oo, Inf):
                return {"add": lambda: oo, "sub": lambda: oo if rev else -oo, "mul": lambda: oo * self,
                        "div": lambda: oo / self if rev else Rl(0)}[op]()
            o = oo
        x, y = (o, self) if rev else (self, o)
        return _arith(op, x, y)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)
    def __mul__(self, o): return self._bin(o, "mul")
    def __rmul__(self, o): return self._bin(o, "mul", True)
    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._bin(o, "div", True)

    def __neg__(self):
        return _arith("mul", Rl(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.q is not None:
            return Rl(abs(self.q))
        if bool(self >= 0):
            return self
        return -self

    def __floordiv__(self, o):
        o = Rl.of(o)
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (Rl.of(o) / self).floor()

    def __mod__(self, o):
        o = Rl.of(o)
        return self - o * (self // o)

    def __rmod__(self, o):
        return Rl.of(o) % self

    def __divmod__(self, o):
        f = self // o
        return f, self - f * o

    def __pow__(self, n):
        n = Rl.of(n)
        if n.q is None:
            raise EngineGap("symbolic exponent")
        if isinstance(n.q, int):
            if n.q >= 0:
                if n.q > 64:
                    raise EngineGap("large power")
                r = Rl(1)
                for _ in range(n.q):
                    r = r * self
                return r
            return Rl(1) / (self ** (-n.q))
        if n.q == Fraction(1, 2):
            return self.sqrt()
        if n.q == Fraction(3, 2):
            return self.sqrt() * self
        if n.q == Fraction(-1, 2):
            return Rl(1) / self.sqrt()
        if self.q is not None:
            return Rl.of(float(self.q) ** float(n.q))
        d = n.q.denominator
        if d & (d - 1) == 0 and d <= 16:
            r = self
            while d > 1:
                r, d = r.sqrt(), d // 2
            return r ** n.q.numerator
        raise EngineGap("fractional power")

    def __rpow__(self, b):
        return Rl.of(b) ** self

    # -- comparisons
    def _cmp(self, o, k):
        if isinstance(o, Inf):
            return {"<": o.s > 0, "<=": o.s > 0, "==": False}[k]
        if not isinstance(o, Rl):
            if getattr(o, "ndim", 0) or o is None or isinstance(o, str):
                return NotImplemented
            o = Rl.of(o)
            if o is None:
                return NotImplemented
            if isinstance(o, Inf):
                return {"<": o.s > 0, "<=": o.s > 0, "==": False}[k]
        return compare(self, o, k)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")

    def __gt__(self, o):
        if isinstance(o, Inf):
            return o.s < 0
        oo = Rl.of(o) if not getattr(o, "ndim", 0) and o is not None else None
        if oo is None:
            return NotImplemented
        if isinstance(oo, Inf):
            return oo.s < 0
        return compare(oo, self, "<")

    def __ge__(self, o):
        if isinstance(o, Inf):
            return o.s < 0
        oo = Rl.of(o) if not getattr(o, "ndim", 0) and o is not None else None
        if oo is None:
            return NotImplemented
        if isinstance(oo, Inf):
            return oo.s < 0
        return compare(oo, self, "<=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not getattr(o, "ndim", 0) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.q is not None:
            return float(self.q)
        s = self.simp()
        if s.q is not None:
            return float(s.q)
        raise EngineGap("float() of a symbolic value at a C boundary")

    def __int__(self):
        return self.trunc_int()

    def __trunc__(self):
        return self.trunc_int()

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, nd=None):
        if self.q is not None:
            r = round(self.q if isinstance(self.q, int) else self.q, nd) if nd is not None else round(self.q)
            return Rl(norm(r)) if nd is not None else int(r)
        raise EngineGap("round of a symbolic value")

    def __floor__(self):
        return int(self.floor().q) if self.floor().q is not None else _gap("floor")

    def __ceil__(self):
        return int((-((-self).floor())).q)

    def floor(self):
        if self.q is not None:
            return Rl(math.floor(self.q))
        return Rl(eng().concretize_floor(self))

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        return Rl(round(self.q)) if self.q is not None else _gap("rint")

    def trunc_int(self):
        if self.q is not None:
            return int(self.q)
        if bool(self >= 0):
            return eng().concretize_floor(self)
        return -eng().concretize_floor(-self)

    def is_integer(self):
        return self.q is not None and isinstance(norm(self.q), int)

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def all(self): return bool(self)
    def any(self): return bool(self)
    def astype(self, d):
        import npshim
        return self if npshim.kind_of(d) == "f" else (self.trunc_int() if npshim.kind_of(d) == "i" else self)

    def tolist(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- numpy ufuncs on object arrays call these
    def sqrt(self):
        if self.q is not None:
            if self.q < 0:
                raise NonFinite("sqrt of a negative number")
            r = _exact_sqrt(self.q)
            if r is not None:
                return Rl(r)
            if ENG is None:
                return Rl.of(math.sqrt(self.q))
        return eng().sqrt(self)

    def sin(self): return _trig("sin", self)
    def cos(self): return _trig("cos", self)

    def tan(self):
        return self.sin() / self.cos()

    def arccos(self): return _fun1("acos", self)
    def arcsin(self): return _fun1("asin", self)
    def arctan(self): return _fun1("atan", self)
    def exp(self): return _fun1("exp", self)
    def log(self): return _fun1("log", self)
    def fabs(self): return abs(self)
    def square(self): return self * self
    def isfinite(self): return True
    def isnan(self): return False

    def __repr__(self):
        return f"Rl({self.q})" if self.q is not None else f"Rl<{self.op}>"

    def __format__(self, spec):
        return repr(self)

    # -- solver term
    def z(self):
        if self._z is None:
            if self.q is not None:
                self._z = zq(self.q)
            else:
                try:
                    r = self.rat()
                    self._z = rat_z(r)
                except TooBig:
                    self._z = _z_term(self)
        return self._z


def _gap(what):
    raise EngineGap(what)


def zq(q):
    return z3.RealVal(str(q))


def _exact_sqrt(q):
    q = Fraction(q)
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return norm(Fraction(a, b))
    return None


_VARS = []   # index -> z3 var
_VARNAMES = {}


def new_var(name, sort="real"):
    i = _VARNAMES.get(name)
    if i is None:
        i = len(_VARS)
        _VARS.append(z3.Real(name))
        _VARNAMES[name] = i
    r = Rl.node("var", i)
    r._rat = Rat(Poly.var(i))
    r._z = _VARS[i]
    return r


def _rat_of(x):
    # iterative post-order to avoid deep recursion
    stack = [x]
    while stack:
        n = stack[-1]
        if n._rat is not None:
            stack.pop()
            continue
        if n.q is not None:
            n._rat = Rat.const(n.q)
            stack.pop()
            continue
        todo = [c for c in n.a if isinstance(c, Rl) and c._rat is None]
        if todo:
            stack.extend(todo)
            continue
        a = n.a[0].rat()
        b = n.a[1].rat()
        if n.op == "add":
            r = a.add(b)
        elif n.op == "sub":
            r = a.sub(b)
        elif n.op == "mul":
            r = a.mul(b)
        elif n.op == "div":
            r = a.mul(b.inv())
        else:
            raise EngineGap(n.op)
        n._rat = r
        stack.pop()
    return x._rat


def poly_z(p):
    terms = []
    for m, c in p.d.items():
        fs = []
        for i, e in unpack(m):
            fs.extend([_VARS[i]] * e)
        if not fs:
            terms.append(zq(c))
            continue
        t = fs[0] if len(fs) == 1 else z3.Product(*fs)
        if c != 1:
            t = zq(c) * t
        terms.append(t)
    if not terms:
        return zq(0)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def rat_z(r):
    n = poly_z(r.n)
    for p, e in r.f.items():
        for _ in range(e):
            n = n / poly_z(p)
    return n


def _z_term(x):
    if x._z is not None:
        return x._z
    if x.q is not None:
        return zq(x.q)
    a, b = _z_term(x.a[0]), _z_term(x.a[1])
    x._z = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[x.op]()
    return x._z


def _arith(op, x, y):
    p, q = x.q, y.q
    if p is not None and q is not None:
        if op == "add":
            return Rl(norm(p + q))
        if op == "sub":
            return Rl(norm(p - q))
        if op == "mul":
            return Rl(norm(p * q))
        if q == 0:
            return ENG.div_zero(x) if ENG is not None else _raise_nf()
        return Rl(norm(Fraction(p) / q))
    if op == "add":
        if p == 0:
            return y
        if q == 0:
            return x
    elif op == "sub":
        if q == 0:
            return x
        if x is y:
            return Rl(0)
    elif op == "mul":
        if p == 0 or q == 0:
            return Rl(0)
        if p == 1:
            return y
        if q == 1:
            return x
    else:
        if q == 1:
            return x
        if q is None:
            eng().need_nonzero(y)
        elif q == 0:
            return eng().div_zero(x)
        if p == 0:
            return Rl(0)
    return Rl(None, op, (x, y))


def _sos(x, depth=0):
    """syntactically a sum of squares (hence never negative)"""
    if x.q is not None:
        return x.q >= 0
    if x.op == "mul":
        a, b = x.a
        return a is b or a.rat().n == b.rat().n and a.rat().f == b.rat().f or depth < 40 and _sos(a, depth + 1) and _sos(b, depth + 1)
    if x.op in ("add", "div"):
        return depth < 40 and _sos(x.a[0], depth + 1) and _sos(x.a[1], depth + 1)
    return False


def _raise_nf():
    raise NonFinite("division by zero")


PI = Fraction(math.pi)


def _trig(name, x):
    x = x.simp()
    if x.q is not None:
        # multiples of pi/4 (pi is the double nearest to it; the residue ~1e-16 is rounding)
        k = Fraction(x.q) / PI * 4
        kr = round(k)
        if abs(k - kr) < Fraction(1, 10 ** 12):
            i = (kr + (0 if name == "sin" else 2)) % 8
            if i % 2 == 0:
                return Rl((0, 1, 0, -1)[i // 2])
            h = Rl(Fraction(1, 2)).sqrt()
            return h if i < 4 else -h
    return eng().trig(name, x)


def atan2(y, x):
    y, x = Rl.of(y).simp(), Rl.of(x).simp()
    if y.q is not None and x.q is not None:
        v = Rl.of(math.atan2(float(y.q), float(x.q)))
        if ENG is not None and (x.q or y.q):
            ENG.order_atan2(y, x, v)
        return v
    return eng().atan2(y, x)


def _fun1(name, x):
    if x.q is not None:
        f = {"acos": math.acos, "asin": math.asin, "atan": math.atan, "exp": math.exp, "log": math.log}[name]
        return Rl.of(f(float(x.q)))
    return eng().uf(name, x)


# ---------------------------------------------------------------------------------------------------- booleans

class SBool:
    __slots__ = ("z", "key")

    def __init__(self, z, key=None):
        self.z = z
        self.key = key

    def __bool__(self):
        return eng().branch(self)

    def __and__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.And(self.z, o.z))
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            return SBool(z3.Or(self.z, o.z))
        return True if o else self
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return f"SBool({self.z})"


def compare(x, y, k):
    """x k y, k in '<', '<=', '=='; a bool when the normal form or the path already decides it."""
    if x.q is not None and y.q is not None:
        return x.q < y.q if k == "<" else (x.q <= y.q if k == "<=" else x.q == y.q)
    try:
        d = (x - y)
        r = d.rat()
    except TooBig:
        zx, zy = x.z(), y.z()
        return SBool(zx < zy if k == "<" else (zx <= zy if k == "<=" else zx == zy))
    if r.is_const():
        c = r.n.const_val()
        return c < 0 if k == "<" else (c <= 0 if k == "<=" else c == 0)
    return eng().poly_cmp(r, k)


def s_and(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SBool):
            zs.append(c.z)
        elif not c:
            return False
    return True if not zs else (SBool(zs[0]) if len(zs) == 1 else SBool(z3.And(*zs)))


def s_or(*cs):
    zs = []
    for c in cs:
        if isinstance(c, SBool):
            zs.append(c.z)
        elif c:
            return True
    return False if not zs else (SBool(zs[0]) if len(zs) == 1 else SBool(z3.Or(*zs)))


def s_not(c):
    return SBool(z3.Not(c.z)) if isinstance(c, SBool) else (not c)


def s_implies(a, b):
    return s_or(s_not(a), b)


# ---------------------------------------------------------------------------------------------------- engine

def divides(a, b):
    """monomial a divides monomial b"""
    while a:
        if (a & 0xFF) > (b & 0xFF):
            return False
        a >>= BITS
        b >>= BITS
    return True


class Watch:
    """interrupts a solver call that overruns its own time limit"""

    def __init__(self):
        self.until, self.thread = None, None

    def start(self, ms):
        self.until = time.time() + ms / 1000 + 3
        if self.thread is None or not self.thread.is_alive():
            import threading
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()

    def stop(self):
        self.until = None

    def loop(self):
        while True:
            time.sleep(0.5)
            u = self.until
            if u is not None and time.time() > u:
                z3.main_ctx().interrupt()


WATCH = Watch()


class Violation(Exception):
    def __init__(self, label, model, detail=""):
        self.label, self.model, self.detail = label, model, detail


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=4000, max_steps=200000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_decisions = 6000
        self.deadline = deadline
        self.stats = dict(paths=0, queries=0, solver_s=0.0, obligations=0, discharged=0, branches=0, unknown=0,
                          assumed_infeasible=0)
        self.violations = []
        self.inconclusive = []
        self.inputs = {}
        self.witness = None
        self.witness_obs = None
        self.reached = set()
        self.div_zero_mode = "raise"
        self.soft = {}

    # -- exploration
    def explore(self, fn):
        global ENG
        work = [[]]
        ENG = self
        try:
            while work:
                if self.stats["paths"] >= self.max_paths:
                    self.inconclusive.append("path limit %d reached" % self.max_paths)
                    break
                if self.deadline and time.time() > self.deadline:
                    self.inconclusive.append("time limit reached")
                    break
                self.prefix = work.pop()
                self.trace = []
                self.pending = []
                self._reset_path()
                self.stats["paths"] += 1
                try:
                    fn()
                except PathAbort:
                    pass
                work.extend(self.pending)
                if self.violations and self.stop_on_violation:
                    break
        finally:
            ENG = None

    stop_on_violation = True
    max_ticks = 3000
    max_obs = 400

    def observe(self, label, a, b):
        if isinstance(a, Nan) or isinstance(b, Nan):
            return
        if len(self.obs) < self.max_obs:
            self.obs.append((label, a, b))

    def violate(self, label, kind, detail=""):
        """the path as it stands is a violation, provided it is feasible"""
        self.stats["obligations"] += 1
        self.kind = kind
        try:
            self._prove_neg(z3.BoolVal(True), label, detail)
        finally:
            self.kind = None

    kind = None

    def gap(self, what):
        r = self._check()
        if r != z3.unsat:
            self.inconclusive.append("not encoded: " + what)

    def value(self, x, vals):
        """float value of x when the inputs have the given values"""
        env = {}
        for name, (i, lo, hi) in self.inputs.items():
            if name in vals:
                env[i] = float(vals[name])

        def var(i):
            if i not in env:
                k, rat = self.aux[i]
                if callable(k):
                    env[i] = k(*[rv(r) for r in rat])
                    return env[i]
                v = rv(rat)
                env[i] = {"sqrt": lambda: math.sqrt(max(v, 0.0)), "sin": lambda: math.sin(v), "cos": lambda: math.cos(v),
                          "acos": lambda: math.acos(v), "asin": lambda: math.asin(v), "atan": lambda: math.atan(v),
                          "exp": lambda: math.exp(v), "log": lambda: math.log(v)}[k]()
            return env[i]

        def pv(p):
            t = 0.0
            for m, c in p.d.items():
                z = float(c)
                for i, ex in unpack(m):
                    z *= var(i) ** ex
                t += z
            return t

        def rv(r):
            n = pv(r.n)
            for p, ex in r.f.items():
                n /= pv(p) ** ex
            return n

        if isinstance(x, Inf):
            return math.inf * x.s
        if x.q is not None:
            return float(x.q)
        return rv(x.rat())

    def _reset_path(self):
        self.margin = None
        self.atans = []
        self.ticks = 0
        self.path_inputs = set()
        self.picks = {}
        self.aux = {}
        self.path_obligations = 0
        for f in RESET_HOOKS:
            f()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.known = {}        # monic poly -> (set of possible signs)
        self.sqrts = {}
        self.trigs = {}
        self.ufs = {}
        self.sq_defs = []      # (var index, Rat)
        self.pcs = []
        self.obs = []
        self.fresh_n = 0
        self.labels_on_path = []

    def fresh(self, base):
        self.fresh_n += 1
        return new_var(f"{base}!{self.fresh_n}")

    def add(self, z):
        self.pcs.append(z)
        self.solver.add(z)

    # -- solver
    def _check(self, *extra):
        t = time.time()
        self.stats["queries"] += 1
        WATCH.start(self.timeout_ms)
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            WATCH.stop()
        self.stats["solver_s"] += time.time() - t
        return r

    def _check_branch(self, *extra):
        """feasibility of a branch: a short limit, unknown counts as feasible"""
        self.solver.set("timeout", min(self.timeout_ms, self.branch_ms))
        try:
            return self._check(*extra)
        finally:
            self.solver.set("timeout", self.timeout_ms)

    branch_ms = 3000

    def feasible(self):
        return self._check() != z3.unsat

    # -- signs of polynomials
    def _sign_z(self, r):
        """(poly z-term whose sign is the sign of r, monic poly key, flip)"""
        n = r.n
        for p, e in r.f.items():
            if e % 2:
                s = self.known.get(p)
                if (s is None or len(s) > 1) and p.degree() == 1:
                    s = self.linear_sign(p)
                if s == frozenset((1,)):
                    continue
                if s == frozenset((-1,)):
                    n = n.neg()
                    continue
                n = n.mul(p)
        return n

    def linear_sign(self, p):
        cur = self.known.get(p, frozenset((-1, 0, 1)))
        z = poly_z(p)
        for want, c in ((1, z <= 0), (-1, z >= 0)):
            if want in cur and self._check_branch(c) == z3.unsat:
                self.known[p] = frozenset((want,))
                return self.known[p]
        self.known.setdefault(p, cur - {0})   # a denominator
        return self.known[p]

    def poly_cmp(self, r, k):
        n = r.n if k == "==" else self._sign_z(r)
        n = self.sq_reduce_poly(n)
        if n.is_const():
            c = n.const_val()
            return c < 0 if k == "<" else (c <= 0 if k == "<=" else c == 0)
        c, p = n.primitive()
        if self.known.get(p) is None:
            p = self.strip_known(p, k)
            if p.is_const():
                c = c * p.const_val()
                return (c < 0) if k == "<" else (c <= 0) if k == "<=" else c == 0
            c2, p = p.primitive()
            c = c * c2
        signs = self.known.get(p, frozenset((-1, 0, 1)))
        neg = c < 0
        if neg:
            signs = frozenset(-s for s in signs)
        want = {"<": {-1}, "<=": {-1, 0}, "==": {0}}[k]
        if signs <= want:
            return True
        if not (signs & want):
            return False
        z = poly_z(p)
        if k == "==":
            zz = z == 0
        elif neg:
            zz = z > 0 if k == "<" else z >= 0
        else:
            zz = z < 0 if k == "<" else z <= 0
        w = frozenset(-s for s in want) if neg else frozenset(want)
        return SBool(zz, (p, w))

    def strip_known(self, p, k):
        """p without the factors whose sign is known on this path"""
        if len(p.d) < 2 or len(p.d) > 3000:
            return p
        for q, s in list(self.known.items()):
            if 0 in s or len(s) != 1 and k != "==" or len(q.d) > len(p.d) or q.is_const():
                continue
            while not p.is_const() and len(q.d) <= len(p.d):
                if not (divides(q.lead(), p.lead()) and divides(min(q.d), min(p.d))):
                    break
                r = p.divexact(q)
                if r is None:
                    break
                p = Poly({m: norm(c) for m, c in r.d.items()})
                if -1 in s and k != "==":
                    p = p.neg()
        return p

    def tidy(self, rat):
        """square-root variables of even power in the denominators replaced, common factors cancelled"""
        f = {}
        done = False
        n = rat.n
        roots = {Poly.var(i): r for i, r in self.sq_defs if not r.f}
        for p, e in rat.f.items():
            r = roots.get(p)
            if r is not None and e >= 2 and not r.n.is_const():
                c, q = r.n.primitive()
                n = n.scale(norm(Fraction(1) / c ** (e // 2)))
                f[q] = f.get(q, 0) + e // 2
                done = True
                e %= 2
            if e:
                f[p] = f.get(p, 0) + e
        n2 = self.sq_reduce_poly(n)
        if not done and n2 is n:
            return rat
        return Rat(n2, f).reduce()

    def learn(self, key, val):
        if key is None:
            return
        p, w = key
        cur = self.known.get(p, frozenset((-1, 0, 1)))
        self.known[p] = cur & w if val else cur - w

    # -- branching
    def branch(self, sb):
        z = sb.z
        if sb.key is not None:
            p, w = sb.key
            cur = self.known.get(p)
            if cur is not None:
                if cur <= w:
                    return True
                if not (cur & w):
                    return False
        zs = z3.simplify(z)
        if z3.is_true(zs):
            return True
        if z3.is_false(zs):
            return False
        i = len(self.trace)
        if i > self.max_decisions:
            raise StepLimit("decision limit")
        self.stats["branches"] += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            rt = self._check_branch(z)
            if rt == z3.unsat:
                v = False
            else:
                rf = self._check_branch(z3.Not(z))
                if rf == z3.unsat:
                    v = True
                else:
                    v = True
                    if self.margin is not None and sb.key is not None:
                        m = self.off_band(sb.key[0])
                        self.soft[tuple(self.trace)] = m
                        mt, mf = self._check_branch(z3.And(z, m)), self._check_branch(z3.And(z3.Not(z), m))
                        if mt == z3.unsat:
                            if mf == z3.unsat:
                                raise PathAbort  # wholly inside the excluded band
                            v = False
                    if v and (self.margin is None or sb.key is None or mf != z3.unsat):
                        self.pending.append(self.trace + [False])
                if self.deadline and time.time() > self.deadline:
                    self.inconclusive.append("time limit reached")
                    raise PathAbort
        m = self.soft.get(tuple(self.trace)) if self.soft else None
        self.trace.append(v)
        self.add(z if v else z3.Not(z))
        if m is not None:
            self.add(m)
        self.learn(sb.key, v)
        return v

    margin = None

    def off_band(self, p):
        """p is not within margin (relative to its largest coefficient but the constant) of zero"""
        k = Fraction(max(abs(c) for m, c in p.d.items() if m)) * self.margin
        x = poly_z(p)
        return z3.Or(x >= zq(k), x <= zq(-k))

    def choose(self, n, name="choice"):
        """A nondeterministic integer in range(n): symbolic, split by the solver."""
        x = z3.Int(f"{name}")
        for k in range(n - 1):
            if self.branch(SBool(x == k)):
                return k
        return n - 1

    def concretize_floor(self, x):
        """floor of a symbolic value: the solver enumerates every feasible integer."""
        z = x.z()
        for _ in range(64):
            i = len(self.trace)
            if i < len(self.prefix):
                # deterministic replay: the candidate is recorded next to the decision
                k = self.floor_memo[tuple(self.trace)]
            else:
                if self._check() != z3.sat:
                    raise EngineGap("floor: no model")
                m = self.solver.model()
                v = m.eval(z, model_completion=True)
                k = math.floor(model_fraction(v))
                if not hasattr(self, "floor_memo"):
                    self.floor_memo = {}
                self.floor_memo[tuple(self.trace)] = k
            if self.branch(SBool(z3.And(z >= k, z < k + 1))):
                return k
        raise EngineGap("floor: more than 64 values")

    floor_memo = {}

    # -- partial operations
    def need_nonzero(self, y):
        c = compare(y, Rl(0), "==")
        if c is False:
            return
        if c is True or self.branch(c):
            self.div_zero(None)

    def div_zero(self, x):
        raise NonFinite("division by zero")

    def sqrt(self, x):
        sos = _sos(x)
        x = x.simp()
        if x.q is not None:
            if x.q < 0:
                raise NonFinite("sqrt of a negative number")
            r = _exact_sqrt(x.q)
            if r is not None:
                return Rl(r)
            key = ("q", x.q)
            rat = x.rat()
        else:
            rat = self.tidy(x.rat())
            key = (rat.n, frozenset(rat.f.items()))
            if key not in self.sqrts and not sos:
                c = compare(x, Rl(0), "<")
                if c is True or (c is not False and self.branch(c)):
                    raise NonFinite("sqrt of a negative number")
        s = self.sqrts.get(key)
        if s is None:
            s = self.fresh("sqrt")
            i = s.a[0]
            self.sqrts[key] = s
            self.aux[i] = ("sqrt", rat)
            zv = _VARS[i]
            den = rat.den()
            self.add(zv >= 0)
            self.add(zv * zv * poly_z(den) == poly_z(rat.n) if not den.is_const() else zv * zv == poly_z(rat.n))
            if x.q is not None:
                self.known[Poly.var(i)] = frozenset((1,))
                self.add(zv > 0)
            else:
                self.known[Poly.var(i)] = frozenset((0, 1))
            self.sq_defs.append((i, rat))
        return s

    def sq_reduce_poly(self, n):
        """Rewrite s**2 by its definition (s a square-root variable with a polynomial radicand)."""
        for i, rat in reversed(self.sq_defs):
            if rat.f:
                continue
            sh = BITS * i
            if not any(((m >> sh) & 0xFF) >= 2 for m in n.d):
                continue
            out = Poly({})
            for e, c in n.by_var(i).items():
                t = c
                if e // 2:
                    t = t.mul(rat.n.pow(e // 2))
                if e % 2:
                    t = t.mul(Poly.var(i))
                out = out.add(t)
            n = out
        return n

    def sq_reduce_full(self, n):
        """As above, clearing denominators: the result is n times a non-zero quantity."""
        for i, rat in reversed(self.sq_defs):
            sh = BITS * i
            mx = max((((m >> sh) & 0xFF) for m in n.d), default=0)
            if mx < 2:
                continue
            den = rat.den()
            h = mx // 2
            out = Poly({})
            for e, c in n.by_var(i).items():
                t = c
                k = e // 2
                if k:
                    t = t.mul(rat.n.pow(k))
                if h - k and not den.is_const():
                    t = t.mul(den.pow(h - k))
                if e % 2:
                    t = t.mul(Poly.var(i))
                out = out.add(t)
            n = out
        return n

    def trig(self, name, x):
        rat = x.rat()
        key = (rat.n, frozenset(rat.f.items()))
        p = self.trigs.get(key)
        if p is None:
            p = self._angle_sum(rat)
            if p is not None:
                self.trigs[key] = p
        if p is None:
            s, c = self.fresh("sin"), self.fresh("cos")
            p = self.trigs[key] = (s, c)
            self.aux[s.a[0]] = ("sin", rat)
            self.aux[c.a[0]] = ("cos", rat)
            self.add(s.z() * s.z() + c.z() * c.z() == 1)
            # sin^2 -> 1 - cos^2 in the normal form
            self.sq_defs.append((s.a[0], Rat(Poly.const(1).sub(c.rat().n.mul(c.rat().n)))))
        return p[0] if name == "sin" else p[1]

    def _angle_sum(self, rat):
        """addition formulas for k1*a1 + k2*a2 + ... + m*pi/4 with small integers k"""
        if rat.f or len(rat.n.d) < 2:
            m = next(iter(rat.n.d), 0)
            if rat.f or not m or rat.n.d[m] == 1:
                return None
        if len(rat.n.d) > 4:
            return None
        terms, const = [], Rl(0)
        for m, k in rat.n.d.items():
            if m == 0:
                const = Rl(k)
                continue
            u = list(unpack(m))
            if len(u) != 1 or u[0][1] != 1 or Fraction(k).denominator != 1 or abs(k) > 4:
                return None
            terms.append((u[0][0], int(k)))
        if const.q != 0:
            q = Fraction(const.q) / PI * 4
            if abs(q - round(q)) > Fraction(1, 10 ** 12):
                return None
        S, C = (_trig("sin", const), _trig("cos", const)) if const.q != 0 else (Rl(0), Rl(1))
        for i, k in terms:
            a = Rl.node("var", i)
            a._rat, a._z = Rat(Poly.var(i)), _VARS[i]
            s1, c1 = self.trig("sin", a), self.trig("cos", a)
            if k < 0:
                s1 = -s1
            for _ in range(abs(k)):
                S, C = S * c1 + C * s1, C * c1 - S * s1
        return S, C

    def new_angle(self, base, s, c, f, args):
        """a fresh angle with the given sine and cosine; f(*values of args) is its value"""
        v = self.fresh(base)
        self.aux[v.a[0]] = (f, args)
        r = v.rat()
        self.trigs[(r.n, frozenset(r.f.items()))] = (s, c)
        return v

    def atan2(self, y, x):
        h = (x * x + y * y).sqrt()
        if not (h > 0):
            return Rl(0)
        ry, rx = y.rat(), x.rat()
        key = ("atan2", ry.n, frozenset(ry.f.items()), rx.n, frozenset(rx.f.items()))
        v = self.ufs.get(key)
        if v is None:
            v = self.ufs[key] = self.new_angle("atan2", y / h, x / h, math.atan2, [y.rat(), x.rat()])
            z, yz = v.z(), y.z()
            self.add(z3.And(z >= -zq(PI), z <= zq(PI), z3.Implies(yz > 0, z > 0), z3.Implies(yz < 0, z < 0),
                            z3.Implies(yz == 0, z3.If(x.z() > 0, z == 0, z == zq(PI)))))
            self.order_atan2(y, x, v)
        return v

    def order_atan2(self, y, x, v):
        """angles of directions in the same half plane are ordered by the cross product"""
        for y2, x2, v2 in self.atans:
            if v.q is not None and v2.q is not None:
                continue
            up = z3.Or(z3.And(y.z() >= 0, y2.z() >= 0), z3.And(y.z() < 0, y2.z() < 0))
            k, d = (x * y2 - y * x2).z(), (x * x2 + y * y2).z()
            self.add(z3.Implies(up, z3.And(z3.Implies(k > 0, v.z() < v2.z()), z3.Implies(k < 0, v.z() > v2.z()),
                                           z3.Implies(z3.And(k == 0, d > 0), v.z() == v2.z()))))
        self.atans.append((y, x, v))

    def uf(self, name, x):
        rat = x.rat()
        key = (name, rat.n, frozenset(rat.f.items()))
        v = self.ufs.get(key)
        if v is not None:
            return v
        if name in ("acos", "asin"):
            if not (x >= -1) or not (x <= 1):
                raise NonFinite(name + " outside [-1, 1]")
            o = (1 - x * x).sqrt()
            s, c, f = (o, x, math.acos) if name == "acos" else (x, o, math.asin)
            v = self.new_angle(name, s, c, lambda t: f(max(-1.0, min(1.0, t))), [rat])
            z = v.z()
            if name == "acos":
                self.add(z3.And(z >= 0, z <= zq(PI), (x.z() > 0) == (z < zq(PI / 2))))
            else:
                self.add(z3.And(z >= -zq(PI / 2), z <= zq(PI / 2), (x.z() > 0) == (z > 0), (x.z() < 0) == (z < 0)))
        elif name == "atan":
            h = (1 + x * x).sqrt()
            v = self.new_angle(name, x / h, 1 / h, math.atan, [rat])
            z = v.z()
            self.add(z3.And(z > -zq(PI / 2), z < zq(PI / 2), (x.z() > 0) == (z > 0), (x.z() < 0) == (z < 0)))
        else:
            v = self.fresh(name)
            self.aux[v.a[0]] = (name, rat)
        self.ufs[key] = v
        return v

    # -- harness API
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort
        if isinstance(c, SBool):
            self.add(c.z)
            self.learn(c.key, True)
        elif not c:
            raise PathAbort

    def assume_feasible(self):
        r = self._check()
        if r == z3.unsat:
            self.stats["assumed_infeasible"] += 1
            raise PathAbort

    def model(self):
        return self.solver.model()

    def prove(self, cond, label, detail=None):
        """Query: path condition and not cond."""
        self.stats["obligations"] += 1
        self.path_obligations += 1
        self.reached.add(label)
        if isinstance(cond, SBool):
            neg = z3.Not(cond.z)
        elif isinstance(cond, z3.BoolRef):
            neg = z3.Not(cond)
        else:
            neg = z3.BoolVal(not cond)
        return self._prove_neg(neg, label, detail)

    def _prove_neg(self, neg, label, detail=None, prefer=()):
        r = self._check(neg)
        if r == z3.unsat:
            self.stats["discharged"] += 1
            return True
        if r == z3.unknown:
            r = self._hard(neg)
            if r == z3.unsat:
                self.stats["discharged"] += 1
                return True
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.inconclusive.append(f"solver unknown at {label}")
            return False
        # r is sat; prefer a counterexample that survives rounding
        for p in prefer:
            self.solver.set("timeout", 3000)
            ok = self._check(neg, p) == z3.sat
            self.solver.set("timeout", self.timeout_ms)
            if ok:
                neg = z3.And(neg, p)
                self._hard_model = None
                break
        m = self._nice_model(neg)
        if m is None:
            self.stats["unknown"] += 1
            self.inconclusive.append(f"no model at {label}")
            return False
        v = Violation(label, m, detail() if callable(detail) else (detail or ""))
        v.kind, v.picks = self.kind or "check", dict(self.picks)
        self.violations.append(v)
        raise PathAbort

    def _hard(self, neg):
        """Second line: nlsat, then a search for a model on a coarse grid (still decided by the solver)."""
        t0 = time.time()
        self._hard_model = None
        try:
            s = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
            s.set("timeout", self.timeout_ms)
            for c in self.pcs:
                s.add(c)
            s.add(neg)
            self.stats["queries"] += 1
            WATCH.start(self.timeout_ms)
            r = s.check()
            if r == z3.sat:
                self._hard_model = s.model()
            if r != z3.unknown:
                return r
            import random
            rnd = random.Random(1)
            t1 = time.time()
            for _ in range(12):
                if time.time() - t1 > 20:
                    break
                WATCH.start(8000)
                s = z3.Solver()
                s.set("timeout", 3000)
                for c in self.pcs:
                    s.add(c)
                s.add(neg)
                names = list(self.inputs.items())
                rnd.shuffle(names)
                for name, (i, lo, hi) in names[: max(1, (3 * len(names)) // 4)]:
                    a, b = (lo if lo is not None else -4), (hi if hi is not None else 4)
                    v = Fraction(a) + (Fraction(b) - Fraction(a)) * Fraction(rnd.randint(0, 8), 8)
                    s.push()
                    s.add(_VARS[i] == zq(v))
                    if s.check() == z3.unsat:
                        s.pop()
                self.stats["queries"] += 1
                if s.check() == z3.sat:
                    self._hard_model = s.model()
                    return z3.sat
            return z3.unknown
        except z3.Z3Exception:
            return z3.unknown
        finally:
            WATCH.stop()
            self.stats["solver_s"] += time.time() - t0

    def _nice_model(self, neg=None):
        """Input values from the solver's model, rounded to short dyadics where the query stays satisfiable."""
        s = self.solver
        hm = getattr(self, "_hard_model", None)
        s.push()
        try:
            if neg is not None:
                s.add(neg)
            if neg is None and hm is None:
                s.set("timeout", 3000)
                r = s.check()
                s.set("timeout", self.timeout_ms)
                if r == z3.unknown and self._hard(z3.BoolVal(True)) == z3.sat:
                    hm = self._hard_model
                    r = z3.sat if hm is not None else r
            else:
                r = s.check() if hm is None else z3.sat
            if r != z3.sat:
                return None
            m = s.model() if hm is None else hm
            self._hard_model = None
            vals = {}
            s.set("timeout", 1500)
            ok = True
            for name, (i, lo, hi) in self.inputs.items():
                v = model_fraction(m.eval(_VARS[i], model_completion=True))
                done = False
                if ok and hm is None:
                    for bits in (0, 2, 4, 8, 16):
                        c = Fraction(round(v * (1 << bits)), 1 << bits)
                        s.push()
                        s.add(_VARS[i] == zq(c))
                        if s.check() == z3.sat:
                            m = s.model()
                            vals[name] = c
                            done = True
                            break
                        s.pop()
                if not done:
                    vals[name] = v
                    if hm is None:
                        s.push()
                        s.add(_VARS[i] == zq(v))
                        if s.check() != z3.sat:
                            s.pop()
                            ok = False
            return vals
        finally:
            s.set("timeout", self.timeout_ms)
            while s.num_scopes():
                s.pop()

    def prove_zero(self, x, label, tol=None, detail=None):
        """|x| <= tol on this path (tol None: x == 0 as a polynomial identity or by the solver)."""
        self.stats["obligations"] += 1
        self.path_obligations += 1
        self.reached.add(label)
        x = x if isinstance(x, Nan) else Rl.of(x)
        if isinstance(x, (Inf, Nan)):
            return self._prove_neg(z3.BoolVal(True), label, "value not finite")
        try:
            r = x.rat()
            n = self.sq_reduce_full(self.sq_reduce_poly(r.n))
        except TooBig:
            z = x.z()
            t = zq(tol or 0)
            return self._prove_neg(z3.Or(z > t, z < -t), label, detail)
        if not n.d:
            return self._prove_neg(zq(0) != zq(0), label, detail)
        if n.is_const() and not r.f:
            c = n.const_val()
            t = tol or 0
            return self._prove_neg(z3.Or(zq(c) > zq(t), zq(c) < zq(-t)), label, detail)
        d = r.den()
        nz, dz = poly_z(r.n), poly_z(d)

        def bad_t(t):
            t = zq(Fraction(t))
            if d.is_const():
                c = d.const_val()
                tz = t * zq(abs(c))
                return z3.Or(nz > tz, nz < -tz)
            # |n/d| > t through the sign of d
            return z3.Or(z3.And(dz > 0, z3.Or(nz > t * dz, nz < -t * dz)),
                         z3.And(dz < 0, z3.Or(nz > -t * dz, nz < t * dz)))
        bad = bad_t(tol) if tol else poly_z(n) != 0
        base = Fraction(tol or 0)
        return self._prove_neg(bad, label, detail, [bad_t(base + Fraction(1, 10)), bad_t(base * 2 + Fraction(1, 10 ** 4))])


def model_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)
