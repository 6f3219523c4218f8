"""The symbolic world: every mmcore module is loaded from /repo's current sources through the translators, with numpy,
math, functools, the C library and scipy replaced by exact-arithmetic counterparts."""
import builtins
import importlib.util
import math
import os
import sys
import types
from fractions import Fraction

import numpy as _np

import cfront
import cpp
import crt
import cyx
import npshim
import pyx
import sym
from crt import cd, HELPERS
from sym import Rl, Inf, SBool, EngineGap, MemFault, NonFinite

REPO = os.environ.get("VERIF_REPO", "/repo")


# -------------------------------------------------------------------------------------------- math and libc

def _m1(name):
    def f(x):
        return getattr(cd(x), name)()
    return f


def m_isclose(a, b, rel_tol=Rl(Fraction(1, 10 ** 9)), abs_tol=Rl(0)):
    a, b = cd(a), cd(b)
    d = abs(a - b)
    if isinstance(d, Inf):
        return a == b
    m = abs(a)
    mb = abs(b)
    m = mb if bool(mb > m) else m
    t = cd(rel_tol) * m
    t2 = cd(abs_tol)
    return d <= (t if bool(t >= t2) else t2)


def m_hypot(*a):
    s = Rl(0)
    for x in a:
        s = s + cd(x) * cd(x)
    return s.sqrt()


def fmin(a, b):
    a, b = cd(a), cd(b)
    return a if bool(a <= b) else b


def fmax(a, b):
    a, b = cd(a), cd(b)
    return a if bool(a >= b) else b


def c_pow(a, b):
    return crt.pow_(cd(a), b)


def c_round(x):
    x = cd(x)
    if x.q is None:
        raise EngineGap("round of a symbolic value")
    q = x.q
    return Rl(math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1))


class GapObj:
    """result of an out-of-encoding call made while modules were being imported"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return GapObj(self._n + "." + n)

    def _g(self, *a, **k):
        if sym.ENG is None:
            return GapObj(self._n)
        raise EngineGap(self._n)
    __call__ = __getitem__ = __add__ = __mul__ = __sub__ = __matmul__ = __rmul__ = __radd__ = __rsub__ = __neg__ = __truediv__ = _g


def _gapf(name):
    def f(*a, **k):
        if sym.ENG is None:
            return GapObj(name)
        raise EngineGap(name)
    return f


def _numf(name):
    """transcendental function of constants only"""
    f0 = getattr(math, name)

    def f(*a):
        a = [cd(x) for x in a]
        if all(getattr(x, "q", None) is not None for x in a):
            return Rl.of(f0(*[float(x.q) for x in a]))
        raise EngineGap(name)
    return f


def c_fmod(a, b):
    a, b = cd(a), cd(b)
    return a - b * Rl((a / b).trunc_int())


def copysign(a, b):
    a = abs(cd(a))
    return a if bool(cd(b) >= 0) else -a


MATH = types.ModuleType("math")
MATH.__dict__.update({k: v for k, v in vars(math).items() if not k.startswith("__")})
MATH.__dict__.update(
    sqrt=_m1("sqrt"), sin=_m1("sin"), cos=_m1("cos"), tan=_m1("tan"), acos=_m1("arccos"), asin=_m1("arcsin"), atan=_m1("arctan"),
    exp=_m1("exp"), log=lambda x, b=None: cd(x).log(), fabs=lambda x: abs(cd(x)),
    floor=lambda x: x if isinstance(x, int) else int(cd(x).floor().q), ceil=lambda x: x if isinstance(x, int) else int(cd(x).ceil().q),
    isclose=m_isclose, hypot=m_hypot, inf=Inf(1), nan=crt.NAN, pi=npshim.pi, e=npshim.e, tau=npshim.pi * 2,
    pow=c_pow, fmod=c_fmod, copysign=copysign, isnan=lambda x: isinstance(x, crt.Nan), isinf=lambda x: isinstance(x, Inf),
    isfinite=lambda x: not isinstance(x, (crt.Nan, Inf)), atan2=sym.atan2, log2=_numf("log2"), log10=_numf("log10"),
    radians=lambda x: cd(x) * npshim.pi / 180, degrees=lambda x: cd(x) * 180 / npshim.pi,
    dist=lambda a, b: m_hypot(*[cd(x) - cd(y) for x, y in zip(a, b)]), fsum=crt.sum_, trunc=crt.trunc,
    acosh=_numf("acosh"), sinh=_numf("sinh"), cosh=_numf("cosh"))

FUNCTOOLS = types.ModuleType("functools")
import functools as _ft  # noqa
FUNCTOOLS.__dict__.update({k: v for k, v in vars(_ft).items() if not k.startswith("__")})
FUNCTOOLS.__dict__.update(lru_cache=crt.lru_cache, cache=crt.LRU)


class Limits:
    @staticmethod
    def epsilon(): return Rl(Fraction(1, 2 ** 52))
    @staticmethod
    def denorm_min(): return Rl(Fraction(1, 2 ** 1074))
    @staticmethod
    def max(): return Rl(int(_np.finfo(float).max))
    @staticmethod
    def min(): return Rl(Fraction(1, 2 ** 1022))
    @staticmethod
    def infinity(): return Inf(1)


LIBC = dict(fabs=lambda x: abs(cd(x)), fmin=fmin, fmax=fmax, fminf=fmin, fmaxf=fmax, sqrt=_m1("sqrt"), sin=_m1("sin"), cos=_m1("cos"), tan=_m1("tan"), pow=c_pow,
            floor=lambda x: cd(x).floor(), ceil=lambda x: cd(x).ceil(), round=c_round, acos=_m1("arccos"), asin=_m1("arcsin"), atan=_m1("arctan"),
            exp=_m1("exp"), log=_m1("log"), pi=npshim.pi, M_PI=npshim.pi, fmod=c_fmod, atan2=sym.atan2, hypot=m_hypot,
            malloc=crt.malloc, calloc=crt.calloc, free=crt.free, realloc=crt.realloc, memcpy=crt.memcpy, memset=crt.memset,
            memcmp=crt.memcmp, vector=crt.Vec, numeric_limits=Limits, abs=lambda x: abs(x),
            isnan=lambda x: isinstance(x, crt.Nan), INFINITY=Inf(1), NAN=crt.NAN, DBL_MAX=Limits.max(), DBL_EPSILON=Limits.epsilon(),
            PyTuple_Pack=lambda n, *a: tuple(a), bool=bool, uint32_t=int, int32_t=int, uint64_t=int, int64_t=int, pair=tuple)


class CNP:
    def __getattr__(self, n):
        if n == "import_array":
            return lambda: None
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(npshim.MODULE, n, _gapf("numpy C API " + n))


class CythonMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        class D:
            def __call__(self, *a, **k):
                if len(a) == 1 and callable(a[0]) and not k:
                    return a[0]
                return lambda f: f

            def __getattr__(self, n):
                return self
        if n in ("operator",):
            return types.SimpleNamespace(dereference=lambda p: p.get_item(0), preincrement=_gapf("preincrement"))
        return D()


class Stub(types.ModuleType):
    """module outside the encoding: using it makes the run inconclusive"""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n[:1].isupper():
            g = _gapf(self.__name__ + "." + n)
            t = type(n, (), {"__init__": lambda s, *a, **k: g()})
            setattr(self, n, t)
            return t
        return _gapf(self.__name__ + "." + n)


def _scipy():
    ms = {}
    for n in ("scipy", "scipy.optimize", "scipy.special", "scipy.spatial", "scipy.interpolate", "scipy.integrate", "scipy.linalg", "scipy.sparse",
              "scipy.spatial.transform", "scipy.optimize._minimize", "scipy.stats", "scipy.sparse.linalg", "scipy.optimize._linprog"):
        ms[n] = Stub(n)
    ms["scipy.special"].comb = lambda n, k, exact=False, repetition=False: math.comb(crt.trunc(cd(n)), crt.trunc(cd(k))) if exact else Rl(math.comb(crt.trunc(cd(n)), crt.trunc(cd(k))))
    ms["scipy.linalg"].lu_factor = lambda a, *k, **kw: a
    ms["scipy.linalg"].lu_solve = lambda a, b, *k, **kw: npshim.solve(a, b)
    ms["scipy.linalg"].solve = npshim.solve
    ms["scipy.sparse"].eye = npshim.eye
    ms["scipy.sparse"].csr_matrix = lambda a, *k, **kw: a
    for n, m in ms.items():
        if "." in n:
            p, c = n.rsplit(".", 1)
            setattr(ms[p], c, m)
    return ms


class World:
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.mods = {}
        self.funcs = {}       # module -> encoded function names
        self.gaps = []
        self.src = {}
        self.mods.update(_scipy())
        self.overrides = overrides or {}
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        for k, v in (("float", crt.FloatT), ("int", crt.IntT), ("hash", crt.hash_), ("round", crt.round_), ("sum", crt.sum_)):
            self.builtins[k] = v
        self.py = {"Z_" + k: v for k, v in HELPERS.items()}
        self.py["Z_pydiv"] = pydiv
        self.py["Z_bytes"] = bytes
        self.py["Z_pyint"] = int
        self.py["Z_pyfloat"] = float

    # ---- finding
    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        pyxs = [p + ".pyx", os.path.join(p, "__init__.pyx")]
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")) and not os.path.exists(os.path.join(p, "__init__.pyx")):
            return os.path.join(p, "__init__.py"), True
        for q in pyxs:
            if os.path.exists(q) and built(self.root, q):
                return q, q.endswith("__init__.pyx")
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        path, pkg = self.find(name)
        if name in self.mods:
            return self.mods[name]
        if path is None and not pkg:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.join(self.root, *name.split("."))]
        self.mods[name] = m
        sys.modules[name] = m
        if path is not None:
            try:
                self._exec(m, path, name)
            except BaseException:
                del self.mods[name]
                sys.modules.pop(name, None)
                raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        ov = self.overrides.get(name)
        if ov:
            ov(m)
        return m

    def _exec(self, m, path, name):
        g = m.__dict__
        g.update(self.py)
        if path.endswith(".pyx"):
            src, em = cyx.translate(path, name, self.root)
            self.src[name] = src
            self.funcs[name] = list(em.functions)
            self.gaps += [(name, x) for x in em.gaps]
            g["Z_cimport"] = self._cimport
            g["Z_cfrom"] = self._cfrom
            g["Z_libc"] = self._libc
            g["Z_extern"] = _ft.partial(self._extern, os.path.dirname(path))
            self._exec_cython(src, path, g)
            return
        code, fs = pyx.compile_py(path, name)
        self.funcs[name] = fs
        exec(code, g)

    def _exec_cython(self, src, path, g):
        """Extension types and C functions of a Cython module exist before its body runs (module initialisation), so
        that circular imports resolve; the body follows."""
        import ast
        tree = ast.parse(src)

        def early(s):
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                return True
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                n = s.module or "" if isinstance(s, ast.ImportFrom) else s.names[0].name
                return not (n.startswith("mmcore") or getattr(s, "level", 0))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                return s.value.func.id in ("Z_cimport", "Z_cfrom", "Z_libc", "Z_extern", "Z_struct")
            return False

        def run(s):
            exec(compile(ast.Module([s], []), path + " (encoded)", "exec"), g)
        def is_cimp(s):
            return (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                    and s.value.func.id in ("Z_cfrom", "Z_cimport") and s.value.args[0].value.startswith("mmcore"))
        rest, wait = [], []
        for s in tree.body:
            if is_cimp(s):
                wait.append(s)
            elif early(s):
                try:
                    run(s)
                except NameError:
                    wait.append(s)
            else:
                rest.append(s)
        # C imports next; definitions that needed them as soon as they can run
        late = [s for s in wait if not is_cimp(s)]
        for c in [s for s in wait if is_cimp(s)]:
            run(c)
            for s in list(late):
                try:
                    run(s)
                    late.remove(s)
                except NameError:
                    pass
        order = {id(s): k for k, s in enumerate(tree.body)}
        for s in sorted(rest + late, key=lambda s: order[id(s)]):
            run(s)

    # ---- import hooks
    def _module(self, name):
        if name == "numpy":
            return npshim.MODULE
        if name in ("numpy.typing", "numpy._typing"):
            return npshim.MODULE.typing
        if name == "numpy.linalg":
            return npshim.MODULE.linalg
        if name.startswith("numpy"):
            return Stub(name)
        if name == "math":
            return MATH
        if name == "functools":
            return FUNCTOOLS
        if name == "multiprocessing" or name.startswith("multiprocessing."):
            return Stub(name)
        if name == "mmcore" or name.startswith("mmcore."):
            return self.load(name)
        if name == "scipy" or name.startswith("scipy."):
            if name not in self.mods:
                self.mods[name] = Stub(name)
            return self.mods[name]
        if name == "cython":
            return CythonMod("cython")
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            name = base + ("." + name if name else "")
        m = self._module(name)
        if m is None:
            return builtins.__import__(name, None, None, fromlist or (), 0)
        if fromlist:
            for f in fromlist:
                if f != "*" and name.startswith("mmcore") and f not in m.__dict__ and hasattr(m, "__path__"):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError as ex:
                        if ex.name != name + "." + f:
                            raise
            return m
        return self._module(name.split(".")[0])

    def _cimport(self, name, top):
        if name == "cython" or name.startswith("cython."):
            return CythonMod("cython")
        if name.startswith("numpy"):
            return CNP()
        if name.startswith("mmcore"):
            m = self.load(name)
            return self.load("mmcore") if top else m
        return types.SimpleNamespace(**LIBC)

    def _cfrom(self, mod, name):
        if mod.startswith("mmcore"):
            m = self.load(mod)
            if name not in m.__dict__ and hasattr(m, "__path__"):
                return self.load(mod + "." + name)
            return getattr(m, name)
        if mod.startswith("numpy"):
            return getattr(CNP(), name)
        return self._libc(mod, name)

    def _libc(self, mod, name):
        if mod.startswith("cython.operator"):
            return {"dereference": lambda p: p.get_item(0)}.get(name, _gapf(name))
        if name in LIBC:
            return LIBC[name]
        return _gapf(mod + "." + name)

    def _extern(self, where, name, header):
        if name in LIBC:
            return LIBC[name]
        if str(header).endswith((".cpp", ".hpp", ".cc")):
            return cpp.load(os.path.join(where, str(header)), name)
        if header:
            f = cfront.load(os.path.join(where, str(header)), name)
            if f is not None:
                return f
        return _gapf("extern " + name)


def pydiv(a, b):
    """Python's /: ZeroDivisionError for scalars, a non-finite value for arrays"""
    return crt.div(a, b)


_built = {}


def built(root, path):
    """is this .pyx one of the extensions build.py compiles (otherwise the .py twin is what users import)"""
    if root not in _built:
        try:
            _built[root] = open(os.path.join(root, "build.py")).read()
        except OSError:
            _built[root] = ""
    rel = os.path.relpath(path, root)
    s = _built[root]
    for line in s.splitlines():
        if rel in line and not line.lstrip().startswith("#"):
            return True
    return False
