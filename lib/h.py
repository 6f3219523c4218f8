"""What a property harness sees.  The same harness runs in two worlds:

 Ctx      encoded sources, symbolic inputs, every check is a solver query over all values within the bounds
 RealCtx  the compiled package, inputs taken from a solver model (replay of a counterexample or of a witness)"""
import importlib
import math
import os
import signal
from fractions import Fraction


class Skip(Exception):
    """replay only: the input does not satisfy an assumption"""


class CheckFailed(Exception):
    pass


class Bad(Exception):
    """raised by a harness for a violation it detects structurally"""


class CtxBase:
    def call(self, f, *a, **k):
        """('ok', value) | ('err', exception): Python-level exceptions of the code under test"""
        try:
            return "ok", f(*a, **k)
        except (Skip, CheckFailed, Bad):
            raise
        except Exception as ex:
            if self.is_engine_abort(ex):
                raise
            return "err", ex

    def is_engine_abort(self, ex):
        return False

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def points(self, name, n, d, lo=-4, hi=4):
        return [[self.real(f"{name}{i}_{j}", lo, hi) for j in range(d)] for i in range(n)]

    def eqv(self, label, a, b, tol=None):
        """equality of two vectors"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label, f"lengths {len(a)} and {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(f"{label}[{i}]", x, y, tol)

    def eqm(self, label, a, b, tol=None):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.fail(label, f"lengths {len(a)} and {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            if hasattr(x, "__len__"):
                self.eqm(f"{label}[{i}]", x, y, tol)
            else:
                self.eq(f"{label}[{i}]", x, y, tol)

    def dot(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def sub(self, a, b):
        return [x - y for x, y in zip(a, b)]

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


class Ctx(CtxBase):
    sym = True

    def __init__(self, world, engine, case):
        import npshim
        self.w, self.e, self.case = world, engine, case
        self.np = npshim.MODULE
        self.inf = npshim.inf

    def mod(self, name):
        return self.w.load(name)

    def is_engine_abort(self, ex):
        return False

    # inputs
    def real(self, name, lo=None, hi=None):
        from sym import new_var, SBool, zq
        v = new_var("in_" + name)
        i = v.a[0]
        fresh = name not in self.e.path_inputs
        lo, hi = getattr(lo, "q", lo), getattr(hi, "q", hi)
        self.e.inputs[name] = (i, lo, hi)
        if fresh:
            self.e.path_inputs.add(name)
            if lo is not None:
                self.assume(v >= lo)
            if hi is not None:
                self.assume(v <= hi)
        return v

    def num(self, x):
        """constant of the harness's arithmetic"""
        from crt import cd
        return cd(x)

    def q(self, a, b):
        from sym import Rl, norm
        return Rl(norm(Fraction(a, b)))

    def angle(self, name, lim=8):
        """an angle in (-pi, pi), given by the tangent of its half"""
        import sym
        t = self.real(name + "_t", -lim, lim)
        d = 1 + t * t
        v = self.e.new_angle("angle", 2 * t / d, (1 - t * t) / d, lambda x: 2 * math.atan(x), [t.rat()])
        m = sym.zq(sym.PI)
        self.e.add(sym.z3.And(v.z() > -m, v.z() < m, (v.z() > 0) == (t.z() > 0), (v.z() < 0) == (t.z() < 0)))
        return v

    def pick(self, name, n):
        """a symbolic integer in range(n), split by the solver"""
        k = self.e.choose(n, "pick_" + name)
        self.e.picks[name] = k
        return k

    def array(self, x, dtype=float):
        return self.np.array(x, dtype=dtype)

    # conditions
    def And(self, *c):
        from sym import s_and
        return s_and(*c)

    def Or(self, *c):
        from sym import s_or
        return s_or(*c)

    def Not(self, c):
        from sym import s_not
        return s_not(c)

    def Implies(self, a, b):
        from sym import s_implies
        return s_implies(a, b)

    def assume(self, c):
        self.e.assume(c)

    def feasible(self):
        self.e.assume_feasible()

    def off_ties(self, a, b):
        """leaves out inputs for which a comparison made from here on is decided by less than a/b (after scaling the largest
        coefficient of the compared polynomial to one)"""
        from fractions import Fraction
        self.e.margin = Fraction(a, b)

    # obligations
    def check(self, label, c, detail=""):
        self.e.prove(c, label, detail)

    def lemma(self, label, c):
        """proved here, then available to the rest of the path"""
        if self.e.prove(c, label):
            self.e.assume(c)

    def eq(self, label, a, b, tol=None):
        from crt import cd
        from sym import Inf
        a, b = cd(a), cd(b)
        self.e.observe(label, a, b)
        if isinstance(a, Inf) or isinstance(b, Inf):
            return self.e.prove(isinstance(a, Inf) and isinstance(b, Inf) and a.s == b.s, label)
        self.e.prove_zero(a - b, label, tol)

    def le(self, label, a, b, tol=0):
        from crt import cd
        a, b = cd(a), cd(b)
        self.e.observe(label, a, b)
        self.e.prove(a <= b + self.num(tol), label)

    def fail(self, label, detail=""):
        self.e.prove(False, label, detail)

    def sqrt(self, x):
        from crt import cd
        return cd(x).sqrt()

    def abs(self, x):
        return abs(x)

    def observe(self, label, v):
        from crt import cd
        v = cd(v)
        self.e.observe(label, v, v)

    def is_real_bool(self, c):
        from sym import SBool
        return bool(c) if not isinstance(c, SBool) else c

    def isfinite(self, x):
        return True

    def isint(self, x):
        return isinstance(x, int)


class TimedOut(BaseException):
    pass


class RealCtx(CtxBase):
    sym = False

    def __init__(self, model, picks=None):
        import numpy
        self.np = numpy
        self.inf = math.inf
        self.model, self.picks = model, picks or {}
        self.failed = []
        self.reached = []
        self.obs = {}

    def mod(self, name):
        return importlib.import_module(name)

    def real(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            v = lo if lo is not None else 0.0
        v = float(Fraction(v) if isinstance(v, str) else v)
        if (lo is not None and v < float(lo) - 1e-12) or (hi is not None and v > float(hi) + 1e-12):
            raise Skip(f"{name} outside its bounds")
        return v

    def num(self, x):
        return float(x)

    def q(self, a, b):
        return a / b

    def angle(self, name, lim=8):
        return 2 * math.atan(self.real(name + "_t", -lim, lim))

    def pick(self, name, n):
        return self.picks.get(name, 0)

    def array(self, x, dtype=float):
        return self.np.array(x, dtype=dtype)

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def feasible(self):
        pass

    def off_ties(self, a, b):
        pass

    def check(self, label, c, detail=""):
        self.reached.append(label)
        if not c:
            self.failed.append((label, str(detail() if callable(detail) else detail)))
            raise CheckFailed(label)

    def lemma(self, label, c):
        self.check(label, c)

    def eq(self, label, a, b, tol=None):
        self.reached.append(label)
        a, b = float(a), float(b)
        self.obs[label] = (a, b)
        if a == b:
            return
        t = (float(tol) if tol else 0.0) + 1e-7 * max(1.0, abs(a), abs(b))
        if not abs(a - b) <= t:
            self.failed.append((label, f"{a!r} != {b!r}"))
            raise CheckFailed(label)

    def le(self, label, a, b, tol=0):
        self.reached.append(label)
        a, b = float(a), float(b)
        self.obs[label] = (a, b)
        if not a <= b + float(tol) + 1e-9 * max(1.0, abs(a), abs(b)):
            self.failed.append((label, f"{a!r} > {b!r}"))
            raise CheckFailed(label)

    def fail(self, label, detail=""):
        self.check(label, False, detail)

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def observe(self, label, v):
        v = float(v)
        self.obs[label] = (v, v)

    def is_real_bool(self, c):
        return bool(c)

    def isfinite(self, x):
        return bool(self.np.isfinite(x))

    def isint(self, x):
        return isinstance(x, int)


class Case:
    def __init__(self, name, fn, args=(), kw=None, mods=(), time_s=120, paths=3000, ticks=3000, timeout_ms=15000, witnesses=1,
                 decisions=6000, bounds="", weight=1, mem_replay=False, expect_nonfinite=False):
        self.name, self.fn, self.args, self.kw = name, fn, tuple(args), dict(kw or {})
        self.mods, self.time_s, self.paths, self.ticks = tuple(mods), time_s, paths, ticks
        self.timeout_ms, self.witnesses, self.decisions, self.bounds = timeout_ms, witnesses, decisions, bounds
        self.weight = weight

    def run(self, ctx):
        self.fn(ctx, *self.args, **self.kw)


def run_real(case, model, picks, limit_s=60):
    """replay: {'status': ok|fail|skip|error|timeout, ...}"""
    ctx = RealCtx(model, picks)

    def onalarm(*a):
        raise TimedOut
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit_s)
    try:
        case.run(ctx)
        st = dict(status="ok")
    except Skip as ex:
        st = dict(status="skip", why=str(ex))
    except CheckFailed:
        st = dict(status="fail", label=ctx.failed[0][0], why=ctx.failed[0][1])
    except TimedOut:
        st = dict(status="timeout")
    except Exception as ex:
        import traceback
        st = dict(status="error", why=f"{type(ex).__name__}: {ex}", tb=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    st["obs"] = {k: [repr(a), repr(b)] for k, (a, b) in list(ctx.obs.items())[:400]}
    st["reached"] = len(ctx.reached)
    return st
