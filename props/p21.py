from fractions import Fraction

from common import *

BOUNDS = ("functions of 1 to 3 variables given by polynomials with symbolic coefficients (quadratic or cubic, separable or not), symbolic points and steps; "
          "convex functions with their least point anywhere inside or outside the bounds, searched down to 1/4 to 1/32 of the range; Romberg tables of up to 5 rows")
OUTSIDE = ("rounding and cancellation in difference quotients; searches that depend on scipy (closest_local_minimum, calculate_bnds, test_all_roots, surface_rect_area); "
           "convergence from a start far from the solution of a general function")

FDM, CN, BN, DC, BI, RO, NW = ("mmcore.numeric.fdm", "mmcore.numeric.newton.cnewton", "mmcore.numeric.newton.bounded", "mmcore.numeric.divide_and_conquer",
                               "mmcore.numeric.bisection", "mmcore.numeric.integrate.romberg", "mmcore.numeric.newton")


class Poly:
    """a polynomial given by {exponents: coefficient}; evaluates points and columns of points"""

    def __init__(self, c, n, deg, name="k"):
        self.n = n
        self.t = {}
        for e in exps(n, deg):
            self.t[e] = c.real(f"{name}{''.join(map(str, e))}", -4, 4)

    def __call__(self, p):
        return sum_(k * prod([p[i] ** e[i] for i in range(self.n) if e[i]]) if any(e) else k for e, k in self.t.items())

    def d(self, i, p):
        return sum_(k * e[i] * prod([p[j] ** (e[j] - (j == i)) for j in range(self.n) if e[j] - (j == i)])
                    if sum(e) > 1 else k * e[i] for e, k in self.t.items() if e[i])

    def dd(self, i, j, p):
        r = 0
        for e, k in self.t.items():
            f = list(e)
            m = f[i]
            f[i] -= 1
            m = m * f[j] if m else 0
            f[j] -= 1
            if m:
                r = r + (k * m * prod([p[a] ** f[a] for a in range(self.n) if f[a]]) if any(f) else k * m)
        return r


def ite(cond, a, b):
    return a if bool(cond) else b


def pos(x):
    return x if bool(x > 0) else x * 0


def prod(xs):
    r = xs[0] if xs else 1
    for x in xs[1:]:
        r = r * x
    return r


def exps(n, deg):
    if n == 1:
        return [(i,) for i in range(deg + 1)]
    return [(i,) + e for i in range(deg + 1) for e in exps(n - 1, deg - i)]


def point(c, n, name="x"):
    return [c.real(f"{name}{i}", -4, 4) for i in range(n)]


def step(c):
    return c.real("h", c.q(1, 100), c.q(1, 2))


def grads(c, n, way):
    m = c.mod(CN if way == "cnewton" else FDM)
    f = Poly(c, n, 2)
    x = point(c, n)
    h = step(c)
    c.feasible()
    p = c.array(x)
    if way in ("cnewton", "fdm"):
        g = lst(m.gradient(f, p, h))
    elif way == "Grad":
        g = lst(m.Grad(f)(p, h=h))
    elif way == "pde":
        g = lst(m.pde(f, p, h))
    elif way == "multi":
        y = point(c, n, "y")
        p = c.array([x, y])
        g2 = lst(m.gradient_multi(f, p, h))
        for i in range(n):
            c.eq(f"second {i}", g2[1][i], f.d(i, y))
        g = g2[0]
        c.eqv("second argument", lst(p[1]), y)
        p = p[0]
    elif way == "scalar":
        g = [m.Grad(lambda t: f(t))(x[0], h=h)]
    elif way == "directions":
        P = m.PDE(lambda T: sum_along(c, f, T), n, h)
        full = lst(P(p))
        c.eqv("whole", full, [f.d(i, x) for i in range(n)])
        for i, nm in zip(range(n), ("dx", "dy", "dz")):
            r = lst(getattr(P, nm)(p))
            for j in range(n):
                c.eq(f"{nm} {j}", r[j], f.d(i, x) if i == j else 0)
        g = full
    for i in range(n):
        c.eq(f"component {i}", g[i], f.d(i, x))
    c.eqv("argument", lst(p), x)


def sum_along(c, f, T):
    return c.array([f([T[i, j] for j in range(f.n)]) for i in range(T.shape[0])])


def onesided(c, n, way):
    m = c.mod(FDM)
    f = Poly(c, n, 1)
    x = point(c, n)
    h = step(c)
    c.feasible()
    p = c.array(x)
    G = m.Grad(f)
    for way in ("forward", "backward", "central"):
        g = lst(G(p, h=h, method=way))
        for i in range(n):
            c.eq(f"{way} {i}", g[i], f.d(i, x))
    c.eqv("argument", lst(p), x)


def scalar(c, way):
    """derivatives of a vector valued function of one variable"""
    m = c.mod(FDM)
    deg = 1 if way in ("forward", "backward") else 2
    F = [Poly(c, 1, deg, nm) for nm in ("a", "b")]
    t = c.real("t", -4, 4)
    h = step(c)
    c.feasible()
    f = lambda t: c.array([p([t]) for p in F])
    if way == "derivate":
        g = m.derivate(f, t, h=h)
    elif way == "args":
        g = m.derivate(lambda t, s, k=1: s * k * f(t), t, 3, h=h, k=2)
        g = [x / 6 for x in lst(g)]
    elif way == "class":
        g = m.FDM(f)(t, h=h)
    elif way == "bounded":
        lo = c.real("lo", -4, 4)
        hi = c.real("hi", -4, 4)
        c.assume(lo <= t)
        c.assume(t <= hi)
        c.assume(hi - lo > 3 * h)
        seen = []

        def fb(t):
            seen.append(t)
            return c.array([p([t]) for p in F])
        g = lst(m.bounded_fdm(fb, h, (lo, hi))(t))
        for s in seen:
            c.check("inside the bounds", c.And(lo <= s, s <= hi))
        one = len(seen) == 2 and (bool(seen[0] == t) or bool(seen[1] == t))
        for i, p in enumerate(F):
            if not one:
                c.eq(f"central {i}", g[i], p.d(0, [t]))
            else:
                # a one-sided quotient is the derivative half a step away
                d = p.d(0, [t])
                c.check(f"one-sided {i}", c.Or(abs_le(c, g[i] - d, abs2(c, p.t[(2,)]) * h)))
        return
    else:
        g = m.fdm(f, method=way, h=0.015625)(t)
    for i, p in enumerate(F):
        c.eq(f"component {i}", lst(g)[i], p.d(0, [t]))


def abs2(c, x):
    return c.abs(x)


def abs_le(c, x, b):
    return c.And(x <= b + c.q(1, 10 ** 9), -x <= b + c.q(1, 10 ** 9))


def hess(c, n, way, deg):
    m = c.mod(CN if way == "cnewton" else FDM)
    f = Poly(c, n, deg)
    x = point(c, n)
    h = step(c)
    c.feasible()
    p = c.array(x)
    if way == "multi":
        y = point(c, n, "y")
        p = c.array([x, y])
        H2 = lst(m.hessian_multi(f, p, h))
        for i in range(n):
            for j in range(n):
                c.eq(f"second {i}{j}", H2[1][i][j], f.dd(i, j, y), tol=Fraction(1, 10 ** 6))
        H = H2[0]
        p = p[0]
    elif way == "Hess":
        H = lst(m.Hess(f, h)(p))
    else:
        H = lst(m.hessian(f, p, h))
    for i in range(n):
        for j in range(n):
            c.eq(f"entry {i}{j}", H[i][j], f.dd(i, j, x), tol=Fraction(1, 10 ** 6))
    c.eqv("argument", lst(p), x)


def whole(c, way):
    """points with whole coordinates are points like any other"""
    m = c.mod(FDM)
    f = Poly(c, 2, 2)
    c.feasible()
    p = c.np.array([1, 2])
    x = [1, 2]
    if way == "gradient":
        g = lst(m.gradient(f, p))
        for i in range(2):
            c.eq(f"component {i}", g[i], f.d(i, x))
    elif way == "hessian":
        H = lst(m.hessian(f, p))
        for i in range(2):
            for j in range(2):
                c.eq(f"entry {i}{j}", H[i][j], f.dd(i, j, x), tol=Fraction(1, 10 ** 6))
    elif way == "gradients":
        g = lst(m.gradient_multi(f, c.np.array([[1, 2], [3, 4]])))
        for i in range(2):
            c.eq(f"component {i}", g[0][i], f.d(i, x))
            c.eq(f"other {i}", g[1][i], f.d(i, [3, 4]))
    elif way == "hessians":
        H = lst(m.hessian_multi(f, c.np.array([[1, 2], [3, 4]])))
        for i in range(2):
            for j in range(2):
                c.eq(f"entry {i}{j}", H[0][i][j], f.dd(i, j, x), tol=Fraction(1, 10 ** 6))
    elif way == "Grad":
        for w in ("central",):
            g = lst(m.Grad(f)(p, method=w))
            for i in range(2):
                c.eq(f"{w} {i}", g[i], f.d(i, x))


def jacobian(c, n):
    m = c.mod(FDM)
    F = [Poly(c, n, 2, nm) for nm in "abc"[:n]]
    x = point(c, n)
    h = step(c)
    c.feasible()
    p = c.array(x)
    J = lst(m.jac(lambda q: c.array([f(q) for f in F]), h)(p))
    # row i: derivatives by the i-th variable
    for i in range(n):
        for j in range(n):
            c.eq(f"entry {i}{j}", J[i][j], F[j].d(i, x))
    c.eqv("argument", lst(p), x)


def classify(c):
    m = c.mod(FDM)
    a, b, d = (c.real(s, -4, 4) for s in "abd")
    c.feasible()
    t = m.classify_critical_point_2d(c.array([[a, b], [b, d]]))
    det = a * d - b * b
    T = m.CriticalPointType
    c.check("minimum", (t == T.LOCAL_MINIMUM) == bool(c.And(det > 0, a > 0)))
    c.check("maximum", (t == T.LOCAL_MAXIMUM) == bool(c.And(det > 0, a < 0)))
    c.check("saddle", (t == T.SADDLE_POINT) == bool(det < 0))
    c.check("degenerate", (t == T.UNDEFINED) == bool(det == 0))


def stationary(c, n, way, full):
    """Newton on a quadratic: the stationary point, from everywhere"""
    m = c.mod({"cnewton": CN, "fdm": FDM, "multi": FDM}[way])
    f = Poly(c, n, 2)
    x = point(c, n)
    H = [[f.dd(i, j, x) for j in range(n)] for i in range(n)]
    D = det(H)
    c.assume(c.Or(D > c.q(1, 4), D < -c.q(1, 4)))
    c.feasible()
    p = c.array(x)
    kw = {} if way == "cnewton" else {"h": c.q(1, 64)}
    if full:
        r = m.newtons_method(f, p, full_return=True, **kw)
        g = r
        r, gr, He, k = g[0], g[1], g[2], g[-1]
        c.check("steps", k <= 2)
        for i in range(n):
            for j in range(n):
                c.eq(f"hessian {i}{j}", lst(He)[i][j], H[i][j], tol=Fraction(1, 100))
    else:
        r = m.newtons_method(f, p, **kw)
    c.check("converges", r is not None)
    r = lst(r)
    for i in range(n):
        c.eq(f"gradient {i}", f.d(i, r), 0, tol=Fraction(1, 1000))
    c.eqv("start", lst(p), x)


def flat(c, way):
    """no stationary point: the search says so"""
    m = c.mod({"cnewton": CN, "fdm": FDM}[way])
    f = Poly(c, 2, 1)
    x = point(c, 2)
    c.assume(c.Or(f.t[(1, 0)] > 1, f.t[(0, 1)] > 1))
    c.feasible()
    p = c.array(x)
    r = m.newtons_method(f, p, no_warn=True)
    c.check("none", r is None)
    r = m.newtons_method(f, p, no_warn=True, full_return=True)
    c.check("none with details", r[0] is None)
    c.eqv("start", lst(p), x)


def given(c, n):
    """derivatives supplied by the caller are used"""
    m = c.mod(FDM)
    f = Poly(c, n, 2)
    x = point(c, n)
    H = [[f.dd(i, j, x) for j in range(n)] for i in range(n)]
    D = det(H)
    c.assume(c.Or(D > c.q(1, 4), D < -c.q(1, 4)))
    c.feasible()
    p = c.array(x)

    def bad(q):
        raise ZeroDivisionError("function value not needed")
    r = lst(m.newtons_method(bad, p, grad=lambda q: c.array([f.d(i, q) for i in range(n)]), hess=lambda q: c.array([[f.dd(i, j, q) for j in range(n)] for i in range(n)])))
    for i in range(n):
        c.eq(f"gradient {i}", f.d(i, r), 0)
    c.eqv("start", lst(p), x)


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum_((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def root(c, n, zero):
    """newton_method2 on a linear system"""
    m = c.mod(CN)
    A = [[c.num(0) if (i, j) in zero else c.real(f"a{i}{j}", -4, 4) if n < 3 or (i + 2 * j) % 4 == 0 else c.num((3 * i + 5 * j) % 7 - 2)
          for j in range(n)] for i in range(n)]
    b = [c.real(f"b{i}", -4, 4) for i in range(n)]
    x = [c.q(i - 1, 2) for i in range(n)]
    c.feasible()
    p = c.array(x)
    F = lambda q: c.array([sum_(A[i][j] * q[j] for j in range(n)) - b[i] for i in range(n)])
    st, r = c.call(m.newton_method2, F, lambda q: c.array(A), p)
    D = det(A)
    if st == "err":
        c.check("kind of error", isinstance(r, ValueError), repr(r))
        c.check("singular", D == 0)
    else:
        for i, v in enumerate(lst(F(lst(r)))):
            c.eq(f"residual {i}", v, 0, tol=Fraction(1, 10 ** 6))
    c.eqv("start", lst(p), x)


def tolerance(c, n):
    """a Jacobian twice too large halves the residual with every step: the result meets the tolerance, and not later than it first does"""
    m = c.mod(CN)
    b = [c.real(f"b{i}", -16, 16) for i in range(n)]
    tol = c.num(2)
    c.feasible()
    seen = []

    def F(q):
        seen.append([q[i] - b[i] for i in range(n)])
        return c.array(seen[-1])
    J = [[c.num(2 * (i == j)) for j in range(n)] for i in range(n)]
    st, r = c.call(m.newton_method2, F, lambda q: c.array(J), c.array([c.num(0)] * n), tol)
    if st == "err":
        c.fail("converges", repr(r))
        return
    d = [x - y for x, y in zip(lst(r), b)]
    c.check("within the tolerance", c.dot(d, d) < tol * tol)
    for e in seen[:-1]:
        c.check("stops as soon as it is", c.dot(e, e) >= tol * tol)


def near_ends(c, way):
    """one-sided differences near the ends of the domain, central ones between"""
    m = c.mod(FDM)
    lo, hi = c.num(0), c.num(1)
    h = c.real("h", c.q(1, 100), c.q(1, 4))
    t = c.real("t", 0, 1)
    a = [c.real(f"a{i}", -4, 4) for i in range(3)]
    c.feasible()
    seen = []

    def f(x):
        seen.append(x)
        return a[0] + a[1] * x + a[2] * x * x
    g = m.PDE(f, 1, h)._wrp(t, h, bounds=(lo, hi))
    for s in seen:
        c.check("inside the domain", c.And(lo <= s, s <= hi))
    want = a[1] + 2 * a[2] * t
    if bool(t <= h):
        c.eq("forward", g, want + a[2] * h)
    elif bool(1 - t <= h):
        c.eq("backward", g, want - a[2] * h)
    else:
        c.eq("central", g, want)


def shapes(c, n):
    m = c.mod(CN)
    x = point(c, n)
    c.feasible()
    p = c.array(x)
    one = c.array([c.num(1)] * n)
    for what, F, J in (("values", lambda q: c.array([c.num(1)] * (n + 1)), lambda q: c.np.eye(n)), ("jacobian", lambda q: one, lambda q: c.np.eye(n + 1))):
        st, r = c.call(m.newton_method2, F, J, p)
        c.check(what + " refused", st == "err" and isinstance(r, ValueError), repr(r))
    st, r = c.call(m.newton_method2, lambda q: one, lambda q: c.np.eye(n), p, 1e-7, 2)
    c.check("no convergence is an error", st == "err" and isinstance(r, ValueError), repr(r))
    c.eqv("start", lst(p), x)


def one_var(c, way, shape, parts):
    """unimodal functions of one variable"""
    m = c.mod(DC if way != "scalar" else BI)
    lo = c.real("lo", -4, 4)
    w = c.real("w", c.q(1, 4), 4)
    a = c.real("a", -9, 9)
    s = c.real("s", c.q(1, 4), 4)
    hi = lo + w
    c.feasible()
    sgn = -1 if way == "max" else 1
    if shape == "square":
        f = lambda t: sgn * s * (t - a) * (t - a)
    else:   # different slopes on the two sides
        f = lambda t: sgn * (pos(t - a) * s + pos(a - t))
    tol = w / parts
    seen = []

    def g(t):
        seen.append(t)
        return f(t)
    if way == "iterative":
        r = m.iterative_divide_and_conquer_min(g, (lo, hi), tol)
    elif way == "recursive":
        r = m.recursive_divide_and_conquer_min(g, (lo, hi), tol)
    elif way == "max":
        r = m.recursive_divide_and_conquer_max(g, (lo, hi), tol)
    else:
        def vec(ts):
            return c.array([g(t) for t in lst(ts)])
        t = m.scalar_min_1d(vec, lo, hi, tol, 5)
        r = (t, f(t))
    t, v = r
    c.check("inside", c.And(lo <= t, t <= hi))
    for u in seen:
        c.check("asked inside", c.And(lo <= u, u <= hi))
    c.eq("value", v, f(t))
    best = ite(a < lo, lo, ite(a > hi, hi, a))
    c.check("near the least point", c.And(t - best <= tol, best - t <= tol))


def several(c, n, way, parts, order):
    """separable convex functions of several variables over boxes"""
    m = c.mod(DC)
    if n > 1 and order:
        lo, w = [c.num(i - 1) for i in range(n)], [c.num(2)] * n
    else:
        lo = [c.real(f"lo{i}", -2, 2) for i in range(n)]
        w = [c.real(f"w{i}", c.q(1, 2), 2) for i in range(n)]
    a = [c.real(f"a{i}", -4, 4) if n < 3 or i != order - 1 else c.q(2 * order - 3, 2 * order) for i in range(n)]
    hi = [l + x for l, x in zip(lo, w)]
    tol = c.q(2, parts)
    c.feasible()
    f = lambda *x: sum_((x[i] - a[i]) * (x[i] - a[i]) for i in range(n))
    if way == "2d":
        r = m.divide_and_conquer_min_2d(f, (lo[0], hi[0]), (lo[1], hi[1]), tol)
    elif way == "vectorized":
        X = c.array([[lo[0]], [hi[0]]])
        Y = c.array([[lo[1]], [hi[1]]])
        r = m.divide_and_conquer_min_2d_vectorized(f, X, Y, tol)
        r = [lst(v)[0] for v in r]
    elif way == "3d":
        r = m.divide_and_conquer_min_3d(f, *((lo[i], hi[i]) for i in range(3)), tol)
    else:
        r = m.divide_and_conquer_min_nd(f, [(lo[i], hi[i]) for i in range(n)], tol)
    c.check("as many coordinates", len(r) == n)
    for i in range(n):
        c.check(f"inside {i}", c.And(lo[i] <= r[i], r[i] <= hi[i]))
        best = ite(a[i] < lo[i], lo[i], ite(a[i] > hi[i], hi[i], a[i]))
        c.check(f"near the least point {i}", c.And(r[i] - best <= tol, best - r[i] <= tol))


def sweep(c, deg, k):
    """every change of sign between two samples is reported"""
    m = c.mod(BI)
    f = Poly(c, 1, deg)
    a = c.real("start", -2, 2)
    h = c.real("h", c.q(1, 4), 1)
    c.feasible()
    calls = []

    def g(t):
        calls.append(t)
        return f([t])
    roots, least = m.bisection1d(g, h, a, a + k * h)
    ts = [a + i * h for i in range(k + 1)]
    vs = [f([t]) for t in ts]
    c.check("samples", len(calls) >= k)
    for i, t in enumerate(ts):
        here = any(bool(r[0] == t) for r in roots)
        if bool(vs[i] == 0):
            c.check("a root at a sample", here)
        elif i and bool(vs[i] * vs[i - 1] < 0):
            c.check("a root between samples", here)
        elif i and here:
            c.check("nothing else", vs[i - 1] == 0)
    for r in roots:
        c.eq("value", r[1], f([r[0]]))
    for v in vs:
        c.check("least value", least <= v)
    c.check("least value is a sample", c.Or(*[least == v for v in vs]))


def integral(c, deg, steps, acc):
    m = c.mod(RO)
    f = Poly(c, 1, deg)
    a = c.real("a", -2, 2)
    b = c.real("b", -2, 2)
    c.feasible()
    v = m.romberg1d(lambda t: f([t]), a, b, steps, acc)
    want = sum_(k * (b ** (e[0] + 1) - a ** (e[0] + 1)) / (e[0] + 1) for e, k in f.t.items())
    c.eq("integral", v, want)


def tableau(c, steps):
    """any function: the last entry of the extrapolation table of its samples"""
    m = c.mod(RO)
    N = 1 << (steps - 1)
    ys = [c.real(f"y{i}", -4, 4) for i in range(N + 1)]
    a = c.real("a", -2, 2)
    w = c.real("w", c.q(1, 2), 2)
    c.feasible()

    def f(t):
        k = (t - a) * N / w
        for i in range(N + 1):
            if bool(abs_le(c, k - i, c.q(1, 10 ** 6))):
                return ys[i]
        c.fail("sampled at the nodes", repr(t))
    v = m.romberg1d(f, a, a + w, steps, c.num(0))
    T = []
    for i in range(steps):
        n = 1 << i
        s = N // n
        row = [w / n * (sum_(ys[j * s] for j in range(1, n)) + (ys[0] + ys[N]) / 2)]
        for j in range(1, i + 1):
            row.append((4 ** j * row[j - 1] - T[i - 1][j - 1]) / (4 ** j - 1))
        T.append(row)
    c.eq("value", v, T[-1][-1])


def boxed(c, n, inside, conv):
    """bounded Newton on a convex quadratic"""
    m = c.mod(BN)
    lo = [c.real(f"lo{i}", -2, 2) if inside else c.num(0) for i in range(n)]
    w = [c.real(f"w{i}", c.q(1, 2), 2) if inside else c.num(1) for i in range(n)]
    hi = [l + x for l, x in zip(lo, w)]
    a = [c.real(f"a{i}", -4, 4) for i in range(n)]
    s = [c.real(f"s{i}", c.q(1, 2), 2) if inside else c.num(1) for i in range(n)]
    x = point(c, n) if inside else [c.q(conv, 6)]
    if inside:
        for i in range(n):
            c.assume(lo[i] <= a[i])
            c.assume(a[i] <= hi[i])
    c.feasible()
    seen = []

    def f(p):
        return sum_(s[i] * (p[i] - a[i]) * (p[i] - a[i]) for i in range(n))
    p = c.array(x)
    grad = lambda q: c.array([2 * s[i] * (q[i] - a[i]) for i in range(n)])
    he = lambda q: c.array([[2 * s[i] if i == j else c.num(0) for j in range(n)] for i in range(n)])
    r = m.bounded_newtons_method(f, p, list(zip(lo, hi)), grad=grad, hess=he, no_warn=True, max_iter=100 if inside else 2)
    c.eqv("start", lst(p), x)
    if r is None:
        c.check("found", not inside)
        return
    r = lst(r)
    for i in range(n):
        c.check(f"inside {i}", c.And(lo[i] - c.q(1, 10 ** 9) <= r[i], r[i] <= hi[i] + c.q(1, 10 ** 9)))
    start = [ite(x[i] < lo[i], lo[i], ite(x[i] > hi[i], hi[i], x[i])) for i in range(n)]
    c.check("no worse than the start", f(r) <= f(start) + c.q(1, 10 ** 9))
    if inside:
        for i in range(n):
            c.check(f"least point {i}", abs_le(c, r[i] - a[i], c.q(1, 10 ** 6)))


def cases(tier):
    big = tier == "thorough"
    out = []

    def A(label, fn, *a, mods=(FDM,), **k):
        out.append(Case(label + " " + name_of(*a), fn, a, mods=mods, **k))
    for n in (1, 2, 3):
        for way in ("fdm", "Grad", "pde", "multi", "directions"):
            A("gradient", grads, n, way)
        A("gradient", grads, n, "cnewton", mods=(CN,))
        A("one-sided", onesided, n, "all")
        A("jacobian", jacobian, n)
        for way in ("fdm", "multi", "Hess"):
            A("hessian", hess, n, way, 3 if n < 3 or big else 2)
        A("hessian", hess, n, "cnewton", 3 if n < 3 or big else 2, mods=(CN,))
    A("gradient", grads, 1, "scalar")
    for way in ("gradient", "hessian", "gradients", "hessians", "Grad"):
        A("whole point", whole, way)
    for way in ("derivate", "args", "class", "central", "forward", "backward", "bounded"):
        A("derivative", scalar, way)
    A("critical point", classify)
    for n in (1, 2) + ((3,) if big else ()):
        for way in ("cnewton", "fdm"):
            for full in (False, True):
                A("newton", stationary, n, way, full, mods=(CN, FDM))
    for way in ("cnewton", "fdm"):
        A("flat", flat, way, mods=(CN, FDM))
    for n in (1, 2, 3):
        A("given", given, n)
        A("shapes", shapes, n, mods=(CN,))
        for zero in ([()] if n < 3 or big else []) + ([((0, 0),), ((0, 0), (1, 1))] if n > 1 else []) + ([((0, 0), (0, 1), (1, 1))] if n == 3 else []):
            A("root", root, n, zero, mods=(CN,))
    for n in (1, 2):
        A("tolerance", tolerance, n, mods=(CN,))
    for way in ("PDE",):
        A("near the ends", near_ends, way, mods=(FDM,))
    for way in ("iterative", "recursive", "max"):
        for shape in ("square", "kink"):
            for parts in (4, 6 if shape == 'kink' else 16) + ((64,) if big else ()):
                A("one variable", one_var, way, shape, parts, mods=(DC,), weight=3, paths=20000)
    for shape in ("square", "kink"):
        A("one variable", one_var, "scalar", shape, 8, mods=(BI,), weight=3, paths=20000)
    for way, n, parts in (("2d", 2, 2), ("2d", 2, 8), ("vectorized", 2, 2), ("vectorized", 2, 4), ("3d", 3, 4), ("nd", 1, 4), ("nd", 2, 2), ("nd", 2, 4), ("nd", 3, 4)) + ((("2d", 2, 4), ("nd", 1, 32)) if big else ()):
        for order in ((1, 2, 3) if n == 3 else (int(parts > 2 and n > 1),)):
            A("several variables", several, n, way, parts, order, mods=(DC,), weight=5, paths=50000)
    for deg in (1, 2):
        A("sweep", sweep, deg, 4, mods=(BI,), weight=2)
    for deg, steps in ((1, 1), (1, 3), (3, 2), (3, 5), (3, 16), (5, 3), (5, 5)):
        A("integral", integral, deg, steps, q10(7), mods=(RO,))
    A("integral", integral, 7, 4, 0.0, mods=(RO,))
    for steps in (1, 2, 3, 4) + ((5,) if big else ()):
        A("extrapolation", tableau, steps, mods=(RO,))
    for n in (1, 2):
        A("bounded newton", boxed, n, True, 100, mods=(BN,), weight=3)
    for x in (0, 2, 9):
        A("bounded newton", boxed, 1, False, x, mods=(BN,), weight=3)
    return out


def q10(k):
    return 10.0 ** -k
