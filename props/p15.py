from common import *

CALG, NUM, CRV, EV, FF, GEO, PAR = ("mmcore.numeric.calgorithms", "mmcore.numeric.numeric", "mmcore.geom.curves.curve", "mmcore.geom.evaluator.surface_evaluator",
                                    "mmcore.geom.surfaces.fundamental_forms", "mmcore.geom.surfaces.geodesic", "mmcore.geom.parametric")
BOUNDS = ("first and second derivative vectors of 3 components in [-8,8] (vanishing first derivative included); Bezier curves of degree 2-3 and curves with one interior knot, polynomial and "
          "rational; surfaces given by any quadratic polynomial patch or bilinear; regular points (the squared area spanned by the derivatives is at least 1/64)")
OUTSIDE = "nearly singular points, numerical derivatives of surfaces of higher degree, angles (Euler's formula, Dupin's indicatrix curve), lines of curvature and geodesics as integrated curves"


def vec(c, nm, n=3, lo=-8, hi=8):
    return [c.real(f"{nm}{i}", lo, hi) for i in range(n)]


def add(a, b, t=1):
    return [x + t * y for x, y in zip(a, b)]


def scale(a, t):
    return [x * t for x in a]


def tangent(c, how, zero):
    D1 = [c.num(0)] * 3 if zero else vec(c, "d")
    D2 = vec(c, "e")
    s = c.dot(D1, D1) if not zero else c.dot(D2, D2)
    if zero != 2:
        c.assume(s >= c.q(1, 64))
    else:
        D2 = [c.num(0)] * 3
    c.feasible()
    a, b = c.array(D1), c.array(D2)
    if how == "compiled":
        r = c.array([5.0] * 3)
        c.mod(CALG).evaluate_tangent(a, b, r)
        T = lst(r)
    else:
        T = lst(c.mod(NUM).evaluate_tangent(a, b)[0])
    along(c, T, D1, D2, zero)
    c.eqm("arguments", [lst(a), lst(b)], [D1, D2])


def along(c, T, D1, D2, zero):
    if zero == 2:
        c.eqv("no direction", T, [0, 0, 0])
        return
    d = D2 if zero else D1
    c.eq("unit", c.dot(T, T), 1)
    c.eqv("parallel", c.cross(T, d), [0, 0, 0])
    c.check("same direction", c.dot(T, d) > 0)


def curvature(c, how, zero):
    D1 = [c.num(0)] * 3 if zero else vec(c, "d")
    D2 = vec(c, "e") if zero < 2 else [c.num(0)] * 3
    if zero < 2:
        c.assume(c.dot(D2 if zero else D1, D2 if zero else D1) >= c.q(1, 64))
    c.feasible()
    a, b = c.array(D1), c.array(D2)
    if how == "compiled":
        t, k = c.array([5.0] * 3), c.array([7.0] * 3)
        ok = c.mod(CALG).evaluate_curvature(a, b, t, k)
    else:
        t, k, ok = c.mod(NUM).evaluate_curvature(a, b)
    T, K = lst(t), lst(k)
    along(c, T, D1, D2, zero)
    c.check("defined unless the derivative vanishes", bool(ok) == (not zero))
    if zero:
        c.eqv("no curvature", K, [0, 0, 0])
    else:
        kvec(c, K, D1, D2)
    c.eqm("arguments", [lst(a), lst(b)], [D1, D2])


def kvec(c, K, D1, D2):
    """the curvature vector is the part of D2 across D1, over |D1|^2"""
    s = c.dot(D1, D1)
    p = c.dot(D1, D2)
    c.eqv("curvature", K, [(s * e - p * d) / (s * s) for d, e in zip(D1, D2)])


def frame_checks(c, R, P, D1, D2):
    O, T, N, B = R
    if P is not None:
        c.eqv("origin", O, P)
    c.eq("unit tangent", c.dot(T, T), 1)
    c.eqv("tangent along the curve", c.cross(T, D1), [0, 0, 0])
    c.check("tangent direction", c.dot(T, D1) > 0)
    c.eq("unit normal", c.dot(N, N), 1)
    c.eq("normal across", c.dot(N, D1), 0)
    c.eq("normal in the osculating plane", c.dot(N, c.cross(D1, D2)), 0)
    c.check("normal to the inside of the bend", c.dot(N, D2) > 0)
    c.eqv("binormal", B, c.cross(T, N))


def py_frames(c, k):
    m = c.mod(NUM)
    D1 = [c.num(0)] * 3
    D1[k] = c.real("d", c.q(1, 4), 8)
    D1[(k + 1) % 3] = c.real("f", -8, 8)
    D2 = vec(c, "e")
    w = c.cross(D1, D2)
    c.assume(c.dot(w, w) >= c.q(1, 64))
    c.feasible()
    N = lst(m.normal_at(c.array(D1), c.array(D2)))
    c.eq("unit normal", c.dot(N, N), 1)
    c.eq("normal across", c.dot(N, D1), 0)
    c.eq("normal in the osculating plane", c.dot(N, w), 0)
    c.check("normal to the inside of the bend", c.dot(N, D2) > 0)
    s = c.sqrt(c.dot(D1, D1))
    T = [x / s for x in D1]
    P = vec(c, "p")
    frame_checks(c, lst(m.plane_on_curve(c.array(P), c.array(T), c.array(D2))), P, D1, D2)


def circle(c, k):
    """the circle has the curve's point, tangent and curvature"""
    m = c.mod(NUM)
    D1 = [c.num(0)] * 3
    D1[k] = c.real("d", c.q(1, 4), 8)
    D1[(k + 1) % 3] = c.num(1)
    D2 = vec(c, "e")
    P = vec(c, "p")
    w = c.cross(D1, D2)
    c.assume(c.dot(w, w) >= c.q(1, 64))
    c.feasible()

    class Crv:
        def evaluate(self, t):
            return c.array(P)

        def derivative(self, t):
            return c.array(D1)

        def second_derivative(self, t):
            return c.array(D2)
    o, R, pl = m.circle_of_curvature(Crv(), c.q(1, 2))
    c.eqv("point", lst(o), P)
    C, T, N, B = lst(pl)
    s = c.dot(D1, D1)
    p = c.dot(D1, D2)
    K = [(s * e - p * d) / (s * s) for d, e in zip(D1, D2)]
    c.check("positive radius", R > 0)
    c.eq("radius", R * R * c.dot(K, K), 1)
    r = c.sub(C, P)
    c.eqv("centre", r, [x / c.dot(K, K) for x in K])
    c.eqv("tangent", c.cross(T, D1), [0, 0, 0])
    c.eqv("frame", B, c.cross(T, N))


def curve_frames(c, p, mult, w, what, k=0):
    """one coordinate is the parameter itself, one is convex, the third is any; the axes are turned by k"""
    n = p + 1 + sum(mult)
    kn = [c.num(0)] * (p + 1) + ([c.num(1)] * mult[0] + [c.num(3)] * (p + 1) if mult else [c.num(2)] * (p + 1))
    gr = [sum_(kn[i + 1:i + p + 1]) / p for i in range(n)]
    rot = lambda a: a[k:] + a[:k]
    P = [rot([gr[i], c.real(f"y{i}", -4, 4), c.num(i * i)]) for i in range(n)]
    if what == "planes" or w:
        t = (c.num(0), c.q(1, 2), c.q(3, 2), c.q(2, 1))[c.pick("t", 4)]
    else:
        t = c.real("t", 0, 3 if mult else 2)
        if mult:
            c.assume(c.Or(t <= 1 - c.q(*SEP), t >= 1 + c.q(*SEP)))
    m = c.mod(NURBS)
    if w == "pos":
        W = [c.q(1, 1), c.real("w", c.q(1, 2), 2), c.q(2, 1)][:n]
        P = [r + [x] for r, x in zip(P, W)]
        H = [[r[0] * r[3], r[1] * r[3], r[2] * r[3], r[3]] for r in P]
        A = [ref_curve_d(kn, p, H, t, d, 4) for d in range(3)]
        c.assume(A[0][3] > 0)
        C0 = [x / A[0][3] for x in A[0][:3]]
        D1 = [(A[1][i] - A[1][3] * C0[i]) / A[0][3] for i in range(3)]
        D2 = [(A[2][i] - 2 * A[1][3] * D1[i] - A[2][3] * C0[i]) / A[0][3] for i in range(3)]
        pt = C0
    else:
        pt, D1, D2 = (ref_curve_d(kn, p, P, t, d) for d in range(3))
    c.assume(c.dot(D1, D1) > 0)
    x = c.cross(D1, D2)
    if what in ("plane", "planes", "normal"):
        c.assume(c.dot(x, x) > 0)
    c.feasible()
    crv = curve(c, P, p, kn)
    if what == "tangent":
        along(c, lst(crv.tangent(t)), D1, D2, 0)
    elif what == "curvature":
        kvec(c, lst(crv.curvature(t)), D1, D2)
    elif what == "plane":
        frame_checks(c, lst(crv.plane_at(t)), pt, D1, D2)
    elif what == "planes":
        r = lst(crv.planes_at(c.array([t, c.num(0)])))
        frame_checks(c, r[0], pt, D1, D2)
        c.eqv("other parameter", r[1][0], P[0][:3])
    elif what == "normal":
        N = lst(crv.normal(t))
        c.eq("unit normal", c.dot(N, N), 1)
        c.eq("normal across", c.dot(N, D1), 0)
        c.eq("normal in the osculating plane", c.dot(N, x), 0)
        c.check("normal to the inside of the bend", c.dot(N, D2) > 0)


# ---- surfaces

def quadric(c):
    """any polynomial patch of degree 2 in each coordinate and its exact derivatives"""
    A = [vec(c, f"a{k}_", 3, -2, 2) for k in range(6)]

    def S(u, v):
        return c.array([A[0][i] + A[1][i] * u + A[2][i] * v + A[3][i] * u * u + A[4][i] * u * v + A[5][i] * v * v for i in range(3)])
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    pt = [A[0][i] + A[1][i] * u + A[2][i] * v + A[3][i] * u * u + A[4][i] * u * v + A[5][i] * v * v for i in range(3)]
    du = [A[1][i] + 2 * A[3][i] * u + A[4][i] * v for i in range(3)]
    dv = [A[2][i] + 2 * A[5][i] * v + A[4][i] * u for i in range(3)]
    return S, u, v, pt, du, dv, scale(A[3], 2), A[4], scale(A[5], 2)


def evaluator(c, what):
    m = c.mod(EV)
    S, u, v, pt, du, dv, duu, duv, dvv = quadric(c)
    n = c.cross(du, dv)
    if "normal" in what:
        c.assume(c.dot(n, n) >= c.q(1, 64))
    c.feasible()
    f = getattr(m, what)
    many = what.endswith("array")
    r = lst(f(S, c.array([u]), c.array([v])))[0] if many else f(S, u, v)
    r = lst(r)
    want = {"derivatives": (du, dv), "second_derivatives": (pt, du, dv, duu, dvv, duv), "origin_derivatives_normal": (pt, du, dv, None),
            "derivatives_normal": (du, dv, None)}[what.replace("_array", "")]
    c.check("rows", len(r) == len(want))
    for i, w in enumerate(want):
        if w is None:
            unit_normal(c, r[i], n)
        else:
            c.eqv(f"row {i}", r[i], w)


def unit_normal(c, N, n):
    c.eq("unit", c.dot(N, N), 1)
    c.eqv("normal direction", c.cross(N, n), [0, 0, 0])
    c.check("normal side", c.dot(N, n) > 0)


def partial(c, what):
    m = c.mod(EV)
    S, u, v, pt, du, dv, duu, duv, dvv = quadric(c)
    c.feasible()
    r = c.array([5.0] * 3)
    getattr(m, "c_derivative_" + what)(S, u, v, r)
    c.eqv("value", lst(r), dict(u=du, v=dv, uu=duu, vv=dvv, uv=duv)[what])


def surface_plane(c, kind):
    m = c.mod(PAR)
    u, v = c.real("u", c.q(1, 8), c.q(7, 8)), c.real("v", c.q(1, 8), c.q(7, 8))
    B = [[c.real("z0", -4, 4), c.num(0), c.num(1)], [c.num(3), c.real("z1", -4, 4), c.num(-1)], [c.num(3), c.num(2), c.real("z2", -4, 4)], [c.num(-1), c.num(4), c.num(2)]]
    if kind == "bilinear":
        s = m.BiLinear(*[c.array(b) for b in B])
    else:
        s = surface(c, [[B[0], B[3]], [B[1], B[2]]], 1, 1, [c.num(0), c.num(0), c.num(1), c.num(1)], [c.num(0), c.num(0), c.num(1), c.num(1)])
    pt = [(1 - v) * ((1 - u) * a + u * b) + v * ((1 - u) * e + u * d) for a, b, d, e in zip(*B)]
    du = [(1 - v) * (b - a) + v * (d - e) for a, b, d, e in zip(*B)]
    dv = [(1 - u) * (e - a) + u * (d - b) for a, b, d, e in zip(*B)]
    n = c.cross(du, dv)
    c.assume(c.dot(n, n) >= c.q(1, 64))
    c.assume(c.dot(du, du) >= c.q(1, 64))
    c.feasible()
    O, X, Y, Z = lst(s.plane_at(c.array([u, v])))
    c.eqv("origin", O, pt)
    c.eq("unit x", c.dot(X, X), 1)
    c.eqv("x along u", c.cross(X, du), [0, 0, 0])
    c.check("x direction", c.dot(X, du) > 0)
    unit_normal(c, Z, n)
    c.eqv("right-handed", Y, c.cross(Z, X))


def invariants(c, k):
    """curvatures from the fundamental forms"""
    m = c.mod(FF)
    E, G = c.real("E", c.q(1, 8), 4), c.real("G", c.q(1, 8), 4)
    F, L, M, N = (c.num(0) if x in k else c.real(x, -4, 4) for x in "FLMN")
    d = E * G - F * F
    c.assume(d >= c.q(1, 64))
    c.feasible()
    K, H = m.gaussian_curvature(E, F, G, L, M, N), m.mean_curvature(E, F, G, L, M, N)
    # the shape operator I^-1 II
    S = [[(G * L - F * M) / d, (G * M - F * N) / d], [(E * M - F * L) / d, (E * N - F * M) / d]]
    c.eq("Gauss", K, S[0][0] * S[1][1] - S[0][1] * S[1][0])
    c.eq("mean", 2 * H, S[0][0] + S[1][1])
    # H^2 - K is a sum of squares over positive numbers
    A = 2 * d * (E * M - F * L) / E
    B = E * N - G * L - 2 * F * (E * M - F * L) / E
    c.eq("discriminant", (E * N + G * L - 2 * F * M) * (E * N + G * L - 2 * F * M) - 4 * d * (L * N - M * M), B * B + A * A / d)
    k1, k2 = m.principal_curvatures(E, F, G, L, M, N)
    c.eq("product", k1 * k2, K)
    c.eq("sum", k1 + k2, 2 * H)
    c.check("ordered", k1 >= k2)


def directions(c, k):
    """principal directions are eigenvectors of the shape operator and orthogonal on the surface"""
    m = c.mod(FF)
    E, F, G = c.real("E", c.q(1, 8), 4), (c.num(0) if "F" in k else c.real("F", -4, 4)), c.real("G", c.q(1, 8), 4)
    d = E * G - F * F
    c.assume(d >= c.q(1, 64))
    k1, k2 = c.real("k1", -4, 4), c.real("k2", -4, 4)
    if "=" in k:
        k2 = k1
        L, M, N = k1 * E, k1 * F, k1 * G
    else:
        # II built from its eigenvectors (a, b) and the metric-orthogonal one
        a, b = (c.num(1), c.num(0)) if "u" in k else (c.num(0), c.num(1)) if "v" in k else (c.num(1), c.real("b", -2, 2))
        e, f = -(F * a + G * b), E * a + F * b
        c.assume(k1 - k2 >= c.q(1, 64))
        n1 = E * a * a + 2 * F * a * b + G * b * b
        n2 = E * e * e + 2 * F * e * f + G * f * f
        p, q = (E * a + F * b, F * a + G * b), (E * e + F * f, F * e + G * f)
        L, M, N = (k1 * p[0] * p[0] / n1 + k2 * q[0] * q[0] / n2, k1 * p[0] * p[1] / n1 + k2 * q[0] * q[1] / n2, k1 * p[1] * p[1] / n1 + k2 * q[1] * q[1] / n2)
        c.assume(c.And(n1 > 0, n2 > 0))
    c.feasible()
    d1, d2 = m.principal_directions(E, F, G, L, M, N, k1, k2)
    d1, d2 = lst(d1), lst(d2)
    for nm, x, y in (("first", d1, k1), ("second", d2, k2)):
        c.eq(nm + " unit", x[0] * x[0] + x[1] * x[1], 1)
        c.eq(nm + " eigen 1", (L - y * E) * x[0] + (M - y * F) * x[1], 0)
        c.eq(nm + " eigen 2", (M - y * F) * x[0] + (N - y * G) * x[1], 0)
    c.eq("orthogonal", E * d1[0] * d2[0] + F * (d1[0] * d2[1] + d1[1] * d2[0]) + G * d1[1] * d2[1], 0)


def normal_curv(c):
    m = c.mod(FF)
    E, F, G, L, M, N = c.real("E", c.q(1, 8), 4), c.real("F", -4, 4), c.real("G", c.q(1, 8), 4), c.real("L", -4, 4), c.real("M", -4, 4), c.real("N", -4, 4)
    a, b = c.real("a", -4, 4), c.real("b", -4, 4)
    s = E * a * a + 2 * F * a * b + G * b * b
    c.assume(s >= c.q(1, 64))
    c.feasible()
    c.eq("normal curvature", m.normal_curvature(E, F, G, L, M, N, a, b) * s, L * a * a + 2 * M * a * b + N * b * b)
    l = m.infinitesimal_arc_length(E, F, G, a, b)
    c.check("length", l > 0)
    c.eq("length squared", l * l, s)


def classify(c, how):
    m = c.mod(FF)
    T = m.PointOnSurfaceType
    k1, k2 = [c.num(0) if z else c.real(n, -4, 4) for n, z in (("k1", c.pick("z1", 2)), ("k2", c.pick("z2", 2)))]
    for k in (k1, k2):
        c.assume(c.Or(k == 0, k >= c.q(1, 4), k <= -c.q(1, 4)))
    c.feasible()
    if how == "KH":
        c.assume(c.Or(k1 + k2 == 0, k1 + k2 >= c.q(1, 64), k1 + k2 <= -c.q(1, 64)))
        r = m.classify_point(k1 * k2, (k1 + k2) / 2)
    else:
        r = m.classify_point_dupin(k1, k2)
    both, none = c.And(k1 != 0, k2 != 0), c.And(k1 == 0, k2 == 0)
    want = {T.ELLIPTIC: k1 * k2 > 0, T.HYPERBOLIC: k1 * k2 < 0, T.FLAT: none, T.PARABOLIC: c.And(c.Not(both), c.Not(none))}[r]
    c.check("type", want, lambda: str(r))


def forms(c, what):
    """the whole chain on a quadratic patch in general position: a graph (u, v, f) turned by a permutation of the axes"""
    m = c.mod(FF)
    a, b, d, e, f = (c.real(x, -2, 2) for x in "abdef")
    if what == "classify":
        a, b = ((c.num(0), c.num(0)), (c.num(-2), c.num(2)), (c.q(1, 4), c.num(-2)))[c.pick("slope", 3)]
    k = c.pick("axes", 3)
    # (the derivatives at a fixed point already take all values)
    u, v = (c.num(0), c.num(0)) if what == "classify" else (c.q(1, 2), c.q(-1, 4)) if what == "forms" else (c.real("u", -1, 1), c.real("v", -1, 1))

    class Srf:
        def evaluate_v2(self, s, t):
            p = [s, t, a * s + b * t + d * s * s + e * s * t + f * t * t]
            return c.array(p[k:] + p[:k])

        def derivatives(self, uv):
            s, t = uv[0], uv[1]
            p, q = [c.num(1), c.num(0), a + 2 * d * s + e * t], [c.num(0), c.num(1), b + e * s + 2 * f * t]
            return c.array([p[k:] + p[:k], q[k:] + q[:k]])
    fu, fv, fuu, fuv, fvv = a + 2 * d * u + e * v, b + e * u + 2 * f * v, 2 * d, e, 2 * f
    w2 = 1 + fu * fu + fv * fv
    if what == "classify":
        K = fuu * fvv - fuv * fuv
        H = (1 + fv * fv) * fuu - 2 * fu * fv * fuv + (1 + fu * fu) * fvv
        c.assume(c.Or(K >= c.q(1, 8), K <= -c.q(1, 8)))
        c.feasible()
        r = m.classify_point_on_surface(Srf(), u, v)
        c.check("type", K > 0 if r == m.PointOnSurfaceType.ELLIPTIC else K < 0 if r == m.PointOnSurfaceType.HYPERBOLIC else False, lambda: str(r))
        return
    c.feasible()
    if what == "first":
        c.eqv("first form", list(m.first_fundamental_form_from_surface(Srf(), u, v)), [1 + fu * fu, fu * fv, 1 + fv * fv])
        return
    (E, F, G, L, M, N), D = m.fundamental_forms_from_surface(Srf(), u, v)
    c.eqv("first form", [E, F, G], [1 + fu * fu, fu * fv, 1 + fv * fv])
    w = c.sqrt(w2)
    c.eqv("second form", [L * w, M * w, N * w], [fuu, fuv, fvv])
    D = [lst(x) for x in D]
    rot = lambda p: p[k:] + p[:k]
    c.eqv("point", D[0], rot([u, v, a * u + b * v + d * u * u + e * u * v + f * v * v]))
    for nm, x, y in (("uu", D[3], fuu), ("uv", D[4], fuv), ("vv", D[5], fvv)):
        c.eqv("derivative " + nm, x, rot([0, 0, y]))
    unit_normal(c, D[6], rot([-fu, -fv, 1]))


def christoffel(c, k):
    """r_ij is the tangential part given by the symbols plus a normal part"""
    m = c.mod(GEO)
    V = {x: vec(c, x, 3, -4, 4) for x in ("uu", "uv", "vv")}
    ru, rv = [c.num(0)] * 3, [c.num(0)] * 3
    ru[k] = c.real("p", c.q(1, 4), 4)
    rv[k], rv[(k + 1) % 3] = c.real("q", -4, 4), c.real("r", c.q(1, 4), 4)

    class Srf:
        derivative_u = staticmethod(lambda uv: c.array(ru))
        derivative_v = staticmethod(lambda uv: c.array(rv))
        second_derivative_uu = staticmethod(lambda uv: c.array(V["uu"]))
        second_derivative_uv = staticmethod(lambda uv: c.array(V["uv"]))
        second_derivative_vv = staticmethod(lambda uv: c.array(V["vv"]))
    c.feasible()
    g = m.compute_christoffel_symbols(Srf(), (c.num(0), c.num(0)))
    for i, x in enumerate(("uu", "uv", "vv")):
        t = add(scale(ru, g[i]), scale(rv, g[i + 3]))
        c.eq(x + " along u", c.dot(t, ru), c.dot(V[x], ru))
        c.eq(x + " along v", c.dot(t, rv), c.dot(V[x], rv))
    # a geodesic keeps its speed and its acceleration has no tangential part
    a, b = c.real("a", -4, 4), c.real("b", -4, 4)
    y = m.geodesic_equations(c.num(0), [c.num(0), c.num(0), a, b], Srf())
    c.eqv("velocity", [y[0], y[1]], [a, b])
    acc = [y[2] * ru[i] + y[3] * rv[i] + a * a * V["uu"][i] + 2 * a * b * V["uv"][i] + b * b * V["vv"][i] for i in range(3)]
    c.eq("acceleration along u", c.dot(acc, ru), 0)
    c.eq("acceleration along v", c.dot(acc, rv), 0)


def distances(c, n):
    """lengths in the plane of a parallelogram"""
    m = c.mod(FF)
    X, Y = [c.real("x0", c.q(1, 2), 3), c.num(0), c.num(1)], [c.real("y0", -2, 2), c.real("y1", c.q(1, 2), 3), c.num(0)]

    class Srf:
        def evaluate_v2(self, u, v):
            return c.array([u * p + v * q for p, q in zip(X, Y)])

        def derivatives(self, uv):
            return c.array([X, Y])
    u1, v1, u2, v2 = (c.real(k, 0, 1) for k in ("u1", "v1", "u2", "v2"))
    e = [(u2 - u1) * p + (v2 - v1) * q for p, q in zip(X, Y)]
    c.assume(c.dot(e, e) >= c.q(1, 64))
    c.feasible()
    r = m.surface_distance(Srf(), u1, v1, u2, v2, n)
    c.check("positive", r > 0)
    c.eq("distance", r * r, c.dot(e, e))


def predicted(c, near):
    """walking a distance on a plane ends that far away"""
    m = c.mod(FF)
    x, y = c.real("x", 1, 2), c.real("y", 1, 2)

    class Srf:
        def evaluate_v2(self, u, v):
            return c.array([u * x, v * y, c.num(1)])

        def derivatives(self, uv):
            return c.array([[x, c.num(0), c.num(0)], [c.num(0), y, c.num(0)]])
    u0, v0 = c.real("u", 0, 1), c.real("v", 0, 1)
    d = c.real("d", c.q(1, 8), 2)
    c.feasible()
    u, v = m.predict_point(Srf(), u0, v0, d, 0.0, 0.5)
    e = [(u - u0) * x, (v - v0) * y]
    c.eq("distance", e[0] * e[0] + e[1] * e[1], d * d)


def jacobian(c, kind, lim):
    m = c.mod(NUM)
    du = [c.num(0)] * 3 if kind == "degenerate" else vec(c, "p", 3, -4, 4)
    dv = vec(c, "q", 3, -4, 4)
    if kind == "degenerate":
        c.assume(c.dot(dv, dv) >= c.q(1, 64))
    else:
        k = c.pick("axis", 3)
        du[k], du[(k + 1) % 3] = c.num(0), c.num(0)
        dv[k] = c.num(0)
    uu, uv, vv = (vec(c, x, 3, -4, 4) for x in ("r", "s", "t"))
    n = c.cross(du, dv)
    if kind == "regular":
        c.assume(c.dot(n, n) >= c.q(1, 64))
        w = n
    else:
        a, b = {2: (-1, 1), 3: (-1, -1), 4: (1, -1)}.get(lim, (1, 1))
        w = c.cross([a * x + b * y for x, y in zip(uu, uv)], dv)
        c.assume(c.dot(w, w) >= c.q(1, 64))
    c.feasible()
    J = c.mod(CALG).surface_jacobian(c.array(du), c.array(dv)) if hasattr(c.mod(CALG), "surface_jacobian") else None
    if J is not None:
        c.eqm("first form", lst(J), [[c.dot(du, du), c.dot(du, dv)], [c.dot(du, dv), c.dot(dv, dv)]])
    det, ok = m.evaluate_jacobian(c.dot(du, du), c.dot(du, dv), c.dot(dv, dv))
    c.eq("determinant", det, c.dot(n, n))
    c.check("regular", bool(ok) == (kind == "regular"))
    for f in (m.evaluate_normal, m.evaluate_normal2):
        N = lst(f(c.array(du), c.array(dv), c.array(uu), c.array(uv), c.array(vv), lim))
        c.eqv("direction", c.cross(N, w), [0, 0, 0])
        c.check("side", c.dot(N, w) > 0)


def least(c, kind, k):
    m = c.mod(NUM)
    a, b = c.real("a", -4, 4), c.real("b", -4, 4)
    p = [c.num(0)] * 3
    if kind != "zero":
        p = vec(c, "p", 3, -4, 4)
        p[k] = c.num(0)
    if kind == "regular":
        p[(k + 1) % 3] = c.num(2)
    q = vec(c, "q", 3, -4, 4) if kind == "regular" else [c.num(0)] * 3 if kind == "zero" else scale(p, 2)
    if kind == "regular":
        q[(k + 2) % 3] = c.num(1)
    n = c.cross(p, q)
    if kind == "regular":
        c.assume(c.dot(n, n) >= c.q(1, 16))
    if kind == "line":
        c.assume(c.dot(p, p) >= c.q(1, 64))
    c.feasible()
    d = add(scale(p, a), q, b)
    p0, q0 = list(p), list(q)
    rank, x, y, err, piv = m.solve3x2(p, q, *d)
    c.check("rank", rank == {"regular": 2, "zero": 0, "line": 1}[kind])
    if kind == "regular":
        c.eqv("solution", [x, y], [a, b])
        c.eq("no error", err, 0)
        c.check("pivot ratio", c.And(piv > 0, piv <= 1))
    c.eqm("arguments", [p, q], [p0, q0])


def sectional(c, k):
    """curvature of the intersection with a plane: in the plane, across the curve, with the normal part the second form gives"""
    m = c.mod(NUM)
    su, sv = [c.num(0)] * 3, [c.num(0)] * 3
    su[k], sv[(k + 1) % 3], sv[k] = c.real("p", c.q(1, 2), 2), c.real("r", c.q(1, 2), 2), c.real("q", -1, 1)
    uu, uv, vv = (vec(c, x, 3, -2, 2) for x in ("x", "y", "z"))
    N = vec(c, "n", 3, -2, 2)
    n = c.cross(su, sv)
    t = c.cross(n, N)
    c.assume(c.dot(t, t) >= c.q(1, 16))
    c.feasible()
    A, B = c.array(su), c.array(sv)
    ok, K = m.evaluate_sectional_curvature(A, B, c.array(uu), c.array(uv), c.array(vv), c.array(N))
    c.check("found", bool(ok))
    K = lst(K)
    c.eqm("arguments", [lst(A), lst(B)], [su, sv])
    c.eq("in the plane", c.dot(K, N), 0)
    c.eq("across the curve", c.dot(K, t), 0)
    # t = a su + b sv
    b = t[(k + 1) % 3] / sv[(k + 1) % 3]
    a = (t[k] - b * sv[k]) / su[k]
    II = sum_((a * a * x + 2 * a * b * y + b * b * z) * w for x, y, z, w in zip(uu, uv, vv, n))
    c.eq("normal part", c.dot(K, n) * c.dot(t, t), II)


def cases(tier):
    q = tier == "quick"
    out = []

    def A(nm, fn, *a, mods=(NUM,), **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=mods, **k))
    for h in ("compiled", "python"):
        for z in (0, 1, 2):
            A("tangent", tangent, h, z, mods=(CALG, NUM))
            A("curvature", curvature, h, z, mods=(CALG, NUM))
    for k in range(3):
        A("frame", py_frames, k)
        A("circle", circle, k)
        A("christoffel", christoffel, k, mods=(GEO,))
        A("section", sectional, k)
    for w in ("tangent", "curvature", "plane", "planes", "normal"):
        for p, mu in ((2, ()), (3, ()), (2, (1,))) if q else ((2, ()), (3, ()), (2, (1,)), (3, (1,)), (3, (2,))):
            A("curve", curve_frames, p, mu, None, w, p % 3, mods=(NURBS,), weight=3)
        if w in ("tangent", "curvature"):
            A("curve", curve_frames, 2, (), "pos", w, mods=(NURBS,), weight=3)
    for w in ("derivatives", "second_derivatives", "derivatives_normal", "origin_derivatives_normal"):
        A("evaluator", evaluator, w, mods=(EV,))
        A("evaluator", evaluator, w + "_array", mods=(EV,))
    for w in ("u", "v", "uu", "uv", "vv"):
        A("partial", partial, w, mods=(EV,))
    for k in ("bilinear", "nurbs"):
        A("surface plane", surface_plane, k, mods=(PAR, NURBS))
    for k in ("", "F", "M", "FM", "LN"):
        A("invariants", invariants, k, mods=(FF,))
    for k in ("F", "Fu", "Fv", "u", "v", "=", "F="):
        A("directions", directions, k, mods=(FF,))
    A("normal curvature", normal_curv, mods=(FF,))
    for h in ("KH", "dupin"):
        A("classify", classify, h, mods=(FF,))
    for w in ("forms", "first", "classify"):
        A("patch", forms, w, mods=(FF,))
    for n in (2, 3) if q else (2, 3, 4, 5):
        A("distance", distances, n, mods=(FF,))
    A("walk", predicted, 0, mods=(FF,))
    A("jacobian", jacobian, "regular", None, mods=(CALG, NUM))
    for l in (None, 2, 3, 4):
        A("jacobian", jacobian, "degenerate", l, mods=(CALG, NUM))
    for k in range(3):
        for h in ("regular", "line"):
            A("solve", least, h, k)
    A("solve", least, "zero", 0)
    return out
