from common import *

SPL, CN, DB, BU, CU, KN = ("mmcore.geom.curves.bspline", "mmcore.geom.curves._nurbs", "mmcore.geom.curves.deboor", "mmcore.geom.curves.bspline_utils",
                           "mmcore.geom.curves.curve_utils", "mmcore.geom.curves.knot")

BOUNDS = ("splines of degree 1-3 (thorough 4) with up to degree+3 control points and every listed multiplicity pattern of the interior knots, polynomial and rational "
          "(weights in [1/4,4]); parameters on every knot and inside every interval; clamped, unclamped and periodic knot vectors; derivatives up to order 3; "
          "splitting and knot insertion at every position; surface kernels up to degree (2,2); interpolation of 2-3 points, and 4 with listed chord lengths, with chords along the axes")
OUTSIDE = ("higher degrees and orders, rounding, the unused refinement kernels knot_refinement1/2 and bspline_first.py, arc length (quadrature), centripetal "
           "interpolation, changing the degree of an existing spline")


def spline(c, P, p, kn, periodic=False):
    return c.mod(SPL).NURBSpline(c.array(P), p, None if kn is None else c.array(kn), periodic)


def weights(P):
    return [r[3] for r in P] if len(P[0]) == 4 else None


def given(c, p, mult, w=None, lo=None, where="any"):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=lo)
    P = ctrl_sparse(c, "P", n, 3, w)
    u = on_domain(c, "u", b, where)
    c.feasible()
    if w:
        weight_positive(c, kn, n, p, u, weights(P))
    return n, b, kn, P, u


def point(c, p, mult, w):
    n, b, kn, P, u = given(c, p, mult, w)
    s = spline(c, P, p, kn)
    want = ref_curve(kn, p, P, u, weights(P))
    it = s.interval()
    c.eqv("domain", [it[0], it[1]], [b[0], b[-1]])
    c.eqv("evaluate", lst(s.evaluate(u))[:3], want)
    c.eqv("evaluate again", lst(s.evaluate(u))[:3], want)
    c.eqv("homogeneous", lst(s.evaluate4d(u)), want + [1])
    for i, r in enumerate(lst(s.evaluate_multi(c.array([u, b[0], u])))):
        c.eqv(f"multi {i}", r, want if i != 1 else P[0][:3])
    c.eqv("call with parameters", lst(s(c.array([b[-1], u])))[1], want)
    c.eqv("start", lst(s.start()), P[0][:3])
    c.eqv("end", lst(s.end()), P[-1][:3])
    c.check("degree", s.degree == p)
    c.eqm("points", lst(s.control_points), [r[:3] for r in P])
    c.eqv("weights", lst(s.weights), weights(P) or [1] * n)
    same_knots(c, "knots", s.knots, kn)
    c.eqv("greville", lst(s.greville_abscissae), [sum_(kn[i + 1:i + p + 1]) / p for i in range(n)])


def default_knots(c, p, n):
    P = ctrl_sparse(c, "P", n, 3)
    s = spline(c, P, p, None)
    kn = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1)
    same_knots(c, "knots", s.knots, [c.num(x) for x in kn])
    u = on_domain(c, "u", [c.num(x) for x in range(n - p + 1)])
    c.feasible()
    c.eqv("point", lst(s.evaluate(u))[:3], ref_curve([c.num(x) for x in kn], p, P, u))


def derivs(c, p, mult, order):
    n, b, kn, P, u = given(c, p, mult)
    s = spline(c, P, p, kn)
    ref = [ref_curve_d(kn, p, P, u, d) for d in range(max(order, 2) + 1)]
    for nm, f in (("derivatives1", s.derivatives1), ("derivatives2", s.derivatives2)):
        got = lst(f(u, order))
        c.check(f"{nm} rows", len(got) == order + 1, f"{len(got)}")
        for d in range(min(order + 1, len(got))):
            c.eqv(f"{nm} order {d}", got[d][:3], ref[d])
    c.eqv("derivative", lst(s.derivative(u)), ref[1])
    c.eqv("second derivative", lst(s.second_derivative(u)), ref[2] if p > 1 else [0, 0, 0])


def derivs_rational(c, p, mult, order):
    n, b, kn, P, u = given(c, p, mult, "pos")
    s = spline(c, P, p, kn)
    Pw = rational(P)
    A = [ref_curve_d(kn, p, Pw, u, d, 4) for d in range(order + 1)]
    tabs = [("single", [lst(s.evaluate(u))[:3], lst(s.derivative(u)), lst(s.second_derivative(u))][:order + 1])]
    tabs += [("derivatives1", [r[:3] for r in lst(s.derivatives1(u, order))]), ("derivatives2", [r[:3] for r in lst(s.derivatives2(u, order))])]
    binom = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1]]
    for nm, g in tabs:
        c.check(f"{nm} rows", len(g) == order + 1, f"{len(g)}")
        for d in range(min(order + 1, len(g))):
            for j in range(3):
                c.eq(f"{nm} order {d} [{j}]", sum_(binom[d][i] * A[i][3] * g[d - i][j] for i in range(d + 1)), A[d][j])


def deriv_points(c, p, mult, order):
    n, b, kn, P, u = given(c, p, mult)
    s = spline(c, P, p, kn)
    st, PK = c.call(s.derivative_control_points, u, order)
    if st == "err":
        c.fail("derivative control points", repr(PK)[:200])
    PK = lst(PK)
    i = span_of(kn, n, p, u)
    for d in range(order + 1):
        N = [cox_de_boor(kn, i - p + d + j, p - d, u, i) for j in range(p - d + 1)]
        c.eqv(f"order {d}", [sum_(N[j] * PK[d][j][k] for j in range(p - d + 1)) for k in range(3)], ref_curve_d(kn, p, P, u, d))


def frame(c, p, w, wh):
    """tangent, normal and plane of a curve whose points spread along a parabola-like arc"""
    n = p + 1
    kn = [c.num(0)] * (p + 1) + [c.num(1)] * (p + 1)
    a = c.real("a", c.q(1, 2), 4)
    P = [[a * i, c.num(i * i), c.num(1)] for i in range(n)]
    if w:
        P = [r + [c.num(1) if i != 1 else c.q(1, 2)] for i, r in enumerate(P)]
    u = [c.num(0), c.q(1, 2), c.num(1), c.q(1, 3)][wh]
    c.feasible()
    s = spline(c, P, p, kn)
    D1, D2 = lst(s.derivative(u)), lst(s.second_derivative(u))
    T = lst(s.tangent(u))
    c.eq("tangent unit", c.dot(T, T), 1)
    c.eqv("tangent along", c.cross(T, D1), [0] * 3)
    c.check("tangent side", c.dot(T, D1) > 0)
    pl = lst(s.plane_at(u))
    c.eqv("plane origin", pl[0], lst(s.evaluate(u))[:3])
    c.eqv("plane x", pl[1], T)
    Y, Z = pl[2], pl[3]
    c.eq("plane y unit", c.dot(Y, Y), 1)
    c.eq("plane y across", c.dot(Y, T), 0)
    c.eq("plane y in the osculating plane", c.dot(Y, c.cross(D1, D2)), 0)
    c.check("plane y side", c.dot(Y, D2) > 0)
    c.eqv("plane z", Z, c.cross(T, Y))
    c.eqv("normal", lst(s.normal(u)), Y)
    k = lst(s.curvature(u))
    num = [c.dot(D1, D1) * D2[j] - c.dot(D1, D2) * D1[j] for j in range(3)]
    den = c.dot(D1, D1) * c.dot(D1, D1)
    c.eqv("curvature vector", [k[j] * den for j in range(3)], num)


def extrapolated(c, p, n, side, w):
    """an unclamped spline outside its domain: the polynomial of the first or last piece"""
    d = [c.real(f"d{i}", c.q(1, 4), 2) for i in range(n + p)]
    kn = [c.real("k0", -4, 4)]
    for x in d:
        kn.append(kn[-1] + x)
    P = ctrl_sparse(c, "P", n, 3, w)
    e = c.real("e", c.q(1, 64), 2)
    u = kn[p] - e if side == "before" else kn[n] + e
    i = p if side == "before" else n - 1
    c.feasible()
    s = spline(c, P, p, kn)
    it = s.interval()
    c.eqv("domain", [it[0], it[1]], [kn[p], kn[n]])
    N = [cox_de_boor(kn, i - p + j, p, u, i) for j in range(p + 1)]
    W = weights(P) or [c.num(1)] * n
    den = sum_(N[j] * W[i - p + j] for j in range(p + 1))
    if w:
        c.assume(c.Or(den > c.q(1, 64), den < -c.q(1, 64)))
    got = lst(s.evaluate(u))[:3]
    for k in range(3):
        c.eq(f"point[{k}]", got[k] * den, sum_(N[j] * W[i - p + j] * P[i - p + j][k] for j in range(p + 1)))
    if not w:
        c.eqv("derivative", lst(s.derivative(u)), [sum_(dbasis(kn, i - p + j, p, u, i, 1) * P[i - p + j][k] for j in range(p + 1)) for k in range(3)])


def inside_unclamped(c, p, n):
    d = [c.real(f"d{i}", c.q(1, 4), 2) for i in range(n + p)]
    kn = [c.real("k0", -4, 4)]
    for x in d:
        kn.append(kn[-1] + x)
    P = ctrl_sparse(c, "P", n, 3)
    u = on_domain(c, "u", kn[p:n + 1])
    c.feasible()
    s = spline(c, P, p, kn)
    c.eqv("point", lst(s.evaluate(u))[:3], ref_curve(kn, p, P, u))
    c.eqv("derivative", lst(s.derivative(u)), ref_curve_d(kn, p, P, u, 1))


# periodic
def wrapped(P, p):
    return P + [P[i % len(P)] for i in range(p)]


def uniform(c, n, p):
    return [c.num(i - p) for i in range(n + 2 * p + 1)]


def distinct_wrap(c, P, p):
    n = len(P)
    c.assume(c.Or(*[c.Or(P[i][0] + c.q(1, 1024) <= P[n - p + i][0], P[i][0] >= P[n - p + i][0] + c.q(1, 1024)) for i in range(p)]))


def periodic(c, p, n, w, how, k):
    m = c.mod(SPL)
    P = ctrl_sparse(c, "P", n, 3, w)
    Q = wrapped(P, p)
    kn = uniform(c, n, p)
    if how != "wrapped" and n > p:
        distinct_wrap(c, P, p)
    u = on_domain(c, "u", kn[p:p + n + 1])
    c.feasible()
    if how == "ctor":
        s = m.NURBSpline(c.array(P), p, None, True)
    elif how == "make":
        s = m.NURBSpline(c.array(P), p)
        s.make_periodic()
    elif how == "wrapped":
        s = m.NURBSpline(c.array(Q), p, c.array(kn), True)
    elif how == "copy":
        import copy
        s = copy.deepcopy(m.NURBSpline(c.array(P), p, None, True)) if type(c).__name__ != "Ctx" else m.NURBSpline(c.array(P), p, None, True).__deepcopy__({})
    elif how == "reduce":
        g, a, *r = m.NURBSpline(c.array(P), p, None, True).__reduce__()
        s = g(*a)
    if w:
        weight_positive(c, kn, len(Q), p, u, weights(Q))
    same_knots(c, "knots", s.knots, kn)
    it = s.interval()
    c.eqv("domain", [it[0], it[1]], [kn[p], kn[p + n]])
    c.check("periodic", bool(s.is_periodic()))
    want = ref_curve(kn, p, Q, u, weights(Q))
    t = u + k * n
    c.eqv("point", lst(s.evaluate(u))[:3], want)
    c.eqv("point a period away", lst(s.evaluate(t))[:3], want)
    c.eqv("multi", lst(s.evaluate_multi(c.array([t, u])))[0], want)
    if p > 1:
        c.eqv("derivative", lst(s.derivative(t)), lst(s.derivative(u)))
        if not w:
            c.eqv("derivative defined", lst(s.derivative(u)), ref_curve_d(kn, p, Q, u, 1))
            c.eqv("derivatives1", lst(s.derivatives1(t, 1))[1], lst(s.derivatives2(u, 1))[1])


def opened(c, p, n, w):
    m = c.mod(SPL)
    P = ctrl_sparse(c, "P", n, 3, w)
    distinct_wrap(c, P, p) if n > p else None
    c.feasible()
    s = m.NURBSpline(c.array(P), p, None, True)
    st, r = c.call(s.make_open)
    if st == "err":
        c.fail("make_open", repr(r)[:200])
    o = m.NURBSpline(c.array(P), p)
    same_knots(c, "knots", s.knots, lst(o.knots))
    c.eqm("points", lst(s.control_points), [r[:3] for r in P])
    c.eqv("weights", lst(s.weights), weights(P) or [1] * n)
    u = on_domain(c, "u", [c.num(x) for x in range(n - p + 1)])
    if w:
        weight_positive(c, lst(o.knots), n, p, u, weights(P))
    c.eqv("point", lst(s.evaluate(u))[:3], lst(o.evaluate(u))[:3])
    c.check("no longer periodic", not bool(s.is_periodic()))
    s.make_periodic()
    same_knots(c, "periodic again", s.knots, uniform(c, n, p))


# changes
def split(c, p, mult, w, pos, wu, via):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, w)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    if w:
        for x in (u, t):
            weight_positive(c, kn, n, p, x, weights(P))
    s = spline(c, P, p, kn)
    st, r = c.call(s.split, t) if via == "method" else c.call(c.mod(KN).nurbs_split, s, t)
    if st == "err":
        c.fail("split", repr(r)[:200])
    one, two = r
    i1, i2 = one.interval(), two.interval()
    c.eqv("domains", [i1[0], i1[1], i2[0], i2[1]], [b[0], t, t, b[-1]])
    want = ref_curve(kn, p, P, u, weights(P))
    if bool(u <= t):
        c.eqv("first", lst(one.evaluate(u))[:3], want)
    if bool(u >= t):
        c.eqv("second", lst(two.evaluate(u))[:3], want)
    same_knots(c, "knots stay", s.knots, kn)
    c.eqm("points stay", lst(s.control_points), [r[:3] for r in P])


def inserted(c, p, mult, w, pos, num):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, w)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    if w:
        for x in (u, t):
            weight_positive(c, kn, n, p, x, weights(P))
    s = spline(c, P, p, kn)
    want = ref_curve(kn, p, P, u, weights(P))
    c.eqv("before", lst(s.evaluate(u))[:3], want)
    st, r = c.call(c.mod(KN).insert_knot, s, t, num)
    if st == "err":
        c.fail("insert_knot", repr(r)[:200])
    same_knots(c, "knots", s.knots, merged(kn, t, num, pos, p, mult))
    c.check("count", len(lst(s.control_points)) == n + num)
    c.eqv("point", lst(s.evaluate(u))[:3], want)


def changed(c, p, mult, what):
    """a value cached before the change must not survive it"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, "pos" if what == "weights" else None)
    u = on_domain(c, "u", b)
    c.feasible()
    m = c.mod(SPL)
    s = spline(c, [r[:3] for r in P], p, kn)
    c.eqv("before", lst(s.evaluate(u))[:3], ref_curve(kn, p, [r[:3] for r in P], u))
    if what == "weights":
        s.weights = c.array(weights(P))
        weight_positive(c, kn, n, p, u, weights(P))
        c.eqv("after", lst(s.evaluate(u))[:3], ref_curve(kn, p, P, u, weights(P)))
    elif what == "points":
        Q = ctrl_sparse(c, "Q", n, 3)
        s.control_points = c.array(Q)
        c.eqv("after", lst(s.evaluate(u))[:3], ref_curve(kn, p, Q, u))
    elif what in ("knots", "set"):
        b2, kn2 = clamped(c, "h", p, mult)
        v = on_domain(c, "v", b2)
        if what == "knots":
            s.knots = c.array(kn2)
        else:
            Q = ctrl_sparse(c, "Q", n, 3, "one")
            s.set(c.array(Q), c.array(kn2))
            P = Q
        it = s.interval()
        c.eqv("domain", [it[0], it[1]], [b2[0], b2[-1]])
        c.eqv("greville", lst(s.greville_abscissae), [sum_(kn2[i + 1:i + p + 1]) / p for i in range(n)])
        c.eqv("after", lst(s.evaluate(v))[:3], ref_curve(kn2, p, [r[:3] for r in P], v))
    elif what == "copy":
        s2 = s.__deepcopy__({})
        s2.control_points = c.array(ctrl_sparse(c, "Q", n, 3))
        c.eqv("the source stays", lst(s.evaluate(u))[:3], ref_curve(kn, p, P, u))
        c.eqm("its points stay", lst(s.control_points), P)
    elif what == "reduce":
        g, a, *r = s.__reduce__()
        s2 = g(*a)
        same_knots(c, "knots", s2.knots, kn)
        c.eqv("same curve", lst(s2.evaluate(u))[:3], ref_curve(kn, p, P, u))


def circle(c, piece, plane):
    import math
    m = c.mod(SPL)
    r = c.real("r", c.q(1, 4), 8)
    o = [c.real(f"o{i}", -8, 8) for i in range(3)]
    s = m.NURBSpline.create_circle(tuple(o), r) if plane == "default" else m.NURBSpline.create_circle(
        tuple(o), r, c.array([[1, 2, 3], [0, 1, 0], [0, 0, 1], [1, 0, 0]]))
    off = [0, 0, 0]
    if plane != "default":
        # plane coordinates to the world
        o, off = [o[2] + 1, o[0] + 2, o[1] + 3], None
    x = c.real("x", 0, 1)
    u = (piece + x) * c.num(math.pi / 2)
    u = [c.num(0), u, c.num(2 * math.pi)][1] if piece < 4 else c.num([0, math.pi / 2, math.pi, 1.5 * math.pi, 2 * math.pi][piece - 4])
    c.feasible()
    if piece < 4:
        c.assume(c.And(x >= c.q(1, 64), x <= c.q(63, 64)))
    it = s.interval()
    c.eqv("domain", [it[0], it[1]], [0, c.num(2 * math.pi)])
    g = lst(s.evaluate(u))[:3]
    d = c.sub(g, o)
    if piece >= 4:
        q = piece - 4
        e = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 0)][q]
        want = [e[0] * r, e[1] * r, 0] if plane == "default" else [0, e[0] * r, e[1] * r]
        c.eqv("quadrant point", d, want, "1e-9")
        return
    a, z = (d[:2], d[2]) if plane == "default" else (d[1:], d[0])
    c.eq("in the plane", z, 0, "1e-9")
    sg = [(1, 1), (-1, 1), (-1, -1), (1, -1)][piece]
    c.check("quadrant", c.And(a[0] * sg[0] >= -c.q(1, 10 ** 9), a[1] * sg[1] >= -c.q(1, 10 ** 9)))
    c.eq("on the circle", (a[0] * a[0] + a[1] * a[1]) / (r * r), 1, "1e-9")


# kernels
def native(c, p, mult, order):
    m = c.mod(CN)
    n, b, kn, P, u = given(c, p, mult, lo=-4)
    i = span_of(kn, n, p, u)
    N = lst(m.all_basis_funs(i, u, p, c.array(kn)))
    for k in range(p + 1):
        c.eqv(f"degree {k}", [N[j][k] for j in range(k + 1)], [cox_de_boor(kn, i - k + j, k, u, i) for j in range(k + 1)])
    o = min(order, p)
    D = lst(m.ders_basis_funs(i, u, p, o, c.array(kn)))
    for d in range(o + 1):
        c.eqv(f"derivative {d} of the basis", D[d], [dbasis(kn, i - p + j, p, u, i, d) for j in range(p + 1)])
    c1, c2 = c.array([[0.] * 3] * (order + 1)), c.array([[0.] * 3] * (order + 1))
    m.curve_derivs_alg1(n - 1, p, c.array(kn), c.array(P), u, order, c1, False)
    for nm, g in (("alg1", c1),) + ((("alg2", c2),) if order <= p else ()):
        if nm == "alg2":
            pk = c.array([[[0.] * 3] * (p + 1)] * (order + 1))
            m.curve_derivs_alg2(n - 1, p, c.array(kn), c.array(P), u, order, c2, pk, False)
        g = lst(g)
        for d in range(order + 1):
            c.eqv(f"{nm} order {d}", g[d], ref_curve_d(kn, p, P, u, d) if d <= p else [0, 0, 0])
    c.eqv("greville", lst(m.greville_abscissae(c.array(kn), p)), [sum_(kn[j + 1:j + p + 1]) / p for j in range(n)])


def recursive(c, p, mult, w):
    m = c.mod(DB)
    n, b, kn, P, u = given(c, p, mult, w)
    i = span_of(kn, n, p, u)
    for j in range(n):
        c.eq(f"N[{j}]", m.deboor(c.array(kn), u, j, p), cox_de_boor(kn, j, p, u, i) if i - p <= j <= i else 0)
    W = weights(P) or [c.num(1)] * n
    X = c.array([r[:3] for r in P])
    want = ref_curve(kn, p, P, u, weights(P))
    c.eqv("point", lst(m.evaluate_nurbs(u, X, c.array(kn), c.array(W), p)), want)
    g = lst(m.evaluate_nurbs_multi(c.array([b[0], u, u]), X, c.array(kn), c.array(W), p))
    for k, r in enumerate((P[0][:3], want, want)):
        c.eqv(f"multi {k}", g[k], r)


def utils(c, mod, p, mult, w):
    m = c.mod(mod)
    n, b, kn, P, u = given(c, p, mult, w)
    i = span_of(kn, n, p, u)
    c.eq("span", m.find_span(p, u, kn), i)
    c.eqv("basis", lst(m.calc_basis_functions(i, u, p, kn)), [cox_de_boor(kn, i - p + j, p, u, i) for j in range(p + 1)])
    P4 = [list(r[:3]) + [r[3] if w else c.num(1)] for r in P]
    want = ref_curve(kn, p, P, u, weights(P))
    C = lst(m.calc_b_spline_point(p, kn, P4, u))
    c.eqv("homogeneous point", C[:3], [x * C[3] for x in want])
    c.eq("weight", C[3], sum_(cox_de_boor(kn, i - p + j, p, u, i) * P4[i - p + j][3] for j in range(p + 1)))


def utils_d(c, mod, p, mult, w, order):
    m = c.mod(mod)
    n, b, kn, P, u = given(c, p, mult, w)
    i = span_of(kn, n, p, u)
    o = min(order, p)
    D = lst(m.calc_basis_function_derivatives(i, u, p, o, kn))
    for d in range(o + 1):
        c.eqv(f"derivative {d} of the basis", D[d], [dbasis(kn, i - p + j, p, u, i, d) for j in range(p + 1)])
    P4 = [list(r[:3]) + [r[3] if w else c.num(1)] for r in P]
    st, g = c.call(m.calcNURBSDerivatives, p, kn, P4, u, order)
    if st == "err":
        c.fail("calcNURBSDerivatives", repr(g)[:200])
    g = [lst(r) for r in g]
    Pw = rational(P4)
    A = [ref_curve_d(kn, p, Pw, u, d, 4) if d <= p else [0] * 4 for d in range(order + 1)]
    c.check("orders", len(g) == order + 1)
    binom = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1]]
    for d in range(order + 1):
        for j in range(3):
            c.eq(f"order {d} [{j}]", sum_(binom[d][k] * A[k][3] * g[d - k][j] for k in range(d + 1)), A[d][j])


def utils_surface(c, mod, pu, pv, mu, mv, w, fn):
    m = c.mod(mod)
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu)
    bv, kv = clamped(c, "kv", pv, mv)
    P = [ctrl_sparse(c, f"P{i}", nv, 3, w) for i in range(nu)]
    P4 = [[list(r[:3]) + [r[3] if w else c.num(1)] for r in row] for row in P]
    u, v = on_domain(c, "u", bu), on_domain(c, "v", bv)
    c.feasible()
    W = [[r[3] for r in row] for row in P4]
    if w:
        weight_positive2(c, ku, kv, nu, nv, pu, pv, u, v, W)
    st, g = c.call(getattr(m, fn), pu, pv, ku, kv, [[c.array(r) for r in row] for row in P4], u, v)
    if st == "err":
        c.fail(fn, repr(g)[:200])
    c.eqv("point", lst(g), ref_surface(ku, kv, pu, pv, P, u, v, W if w else None))


def knot_kernel(c, p, mult):
    m = c.mod(KN)
    n, b, kn, P, u = given(c, p, mult)
    i = span_of(kn, n, p, u)
    c.eq("linear", m.find_span_linear(p, kn, n, u), i)
    c.eq("binary", m.find_span_binsearch(p, kn, n, u), i)
    c.eqv("spans", lst(m.find_spans(p, kn, n, [b[0], u, b[-1]])), [p, i, span_of(kn, n, p, b[-1])])
    c.eqv("basis", lst(m.basis_function(p, kn, i, u)), [cox_de_boor(kn, i - p + j, p, u, i) for j in range(p + 1)])
    want = sum(1 for x in kn if x is u)
    c.eq("multiplicity", m.find_multiplicity(u, kn), want)
    q = lst(m.normalize_knot(kn))
    c.eqv("normalized", [x * (b[-1] - b[0]) for x in q], [x - b[0] for x in kn])
    for d in range(p + 1):
        PK = lst(m.curve_deriv_cpts(3, p, kn, P, (i - p, i), d))
        N = [cox_de_boor(kn, i - p + d + j, p - d, u, i) for j in range(p - d + 1)]
        c.eqv(f"derivative points {d}", [sum_(N[j] * PK[d][j][k] for j in range(p - d + 1)) for k in range(3)], ref_curve_d(kn, p, P, u, d))


def knot_insert(c, p, mult, pos, num):
    m = c.mod(KN)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 4)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    st, r = c.call(m.knot_insertion, p, kn, c.array(P), t, num)
    if st == "err":
        c.fail("knot_insertion", repr(r)[:200])
    Q, k2 = lst(r[0]), list(r[1])
    want = merged(kn, t, num, pos, p, mult)
    same_knots(c, "knots", k2, want)
    c.eqv("point", ref_curve(want, p, Q, u, None, 4), ref_curve(kn, p, P, u, None, 4))


def generated(c, p, n, cl):
    kn = lst(c.mod(KN).generate_knot(p, n, cl))
    want = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1) if cl else list(range(n + p + 1))
    same_knots(c, "knots", kn, [c.num(x) for x in want])


def bad_generated(c, p, n):
    st, r = c.call(c.mod(KN).generate_knot, p, n)
    c.check("refused", st == "err" and isinstance(r, ValueError))


def interpolated(c, p, n, via):
    """chords along the axes: the lengths need no root"""
    shape = c.pick("shape", 4) if n > 3 else 0
    P = [[c.real(f"o{j}", -4, 4) for j in range(3)]]
    for i in range(1, n):
        d = c.real(f"d{i}", c.q(1, 4), 4) if n < 4 else c.num([[1, 2, 3], [2, 1, 1], [1, 1, 4], [3, 2, 1]][shape][i - 1])
        P.append([P[-1][j] + (d if (i + 1) % 3 == j else 0) for j in range(3)])
    c.feasible()
    if via == "kernel":
        C, kn, deg = c.mod(KN).interpolate_curve(c.array(P), p)
    else:
        s = c.mod(SPL).interpolate_nurbs_curve(c.array(P), p)
        C, kn, deg = s.control_points, s.knots, s.degree
    C, kn = lst(C), lst(kn)
    c.check("degree", deg == p)
    c.check("sizes", len(C) == n and len(kn) == n + p + 1)
    ch = [P[i + 1][(i + 2) % 3] - P[i][(i + 2) % 3] for i in range(n - 1)]
    tot = sum_(ch)
    for i in range(n):
        u = c.num(0) if i == 0 else c.num(1) if i == n - 1 else sum_(ch[:i]) / tot
        sp = p if i == 0 else n - 1 if i == n - 1 else span_of(kn, n, p, u)
        c.eqv(f"point {i}", [sum_(cox_de_boor(kn, sp - p + j, p, u, sp) * C[sp - p + j][k] for j in range(p + 1)) for k in range(3)], P[i], "1e-9")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, mods=(SPL, CN, KN), **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=mods, **k))
    MU = {1: [(), (1,), (1, 1)], 2: [(), (1,), (2,), (1, 1), (1, 2)], 3: [(), (1,), (2,), (3,), (1, 1)]}
    if not q:
        MU[4] = [(), (1,)]
        MU[3] += [(2, 1)]
    for p in MU:
        for mu in MU[p]:
            add("point", point, p, mu, None)
            if p < 3:
                add("point", point, p, mu, "pos")
            if all(x < p for x in mu) or p == 1 and not mu:
                for o in (1, 2, 3) if p > 1 else (1, 2):
                    if o <= p + 1 and (o < 3 or p < 3 or len(mu) < 2):
                        add("derivatives", derivs, p, mu, o)
                if p < 3 and len(mu) < 2:
                    add("derivatives of a rational", derivs_rational, p, mu, min(p, 2))
                add("derivative points", deriv_points, p, mu, min(p, 2))
            add("native kernels", native, p, mu, min(3, p + 1), mods=(CN,))
            add("recursive basis", recursive, p, mu, None, mods=(DB,))
            if p < 3 and len(mu) < 2:
                add("recursive basis", recursive, p, mu, "pos", mods=(DB,))
            add("knot kernels", knot_kernel, p, mu, mods=(KN,))
            for mod, short in ((BU, "utils"), (CU, "curve utils")):
                add(short, lambda c, mod, *a: utils(c, mod, *a), mod, p, mu, None, mods=(mod,))
                if p < 3:
                    add(short, lambda c, mod, *a: utils(c, mod, *a), mod, p, mu, "pos", mods=(mod,))
                if len(mu) < 2:
                    add(short + " derivatives", lambda c, mod, *a: utils_d(c, mod, *a), mod, p, mu, None, min(3, p + 1), mods=(mod,))
                    if p < 3:
                        add(short + " derivatives", lambda c, mod, *a: utils_d(c, mod, *a), mod, p, mu, "pos", min(p, 2), mods=(mod,))
            if len(mu) < 2 or p < 3:
                nb = len(mu) + 2
                for pos in params_of(nb):
                    if pos in (("at", 0), ("at", nb - 1)):
                        continue
                    s = mu[pos[1] - 1] if pos[0] == "at" else 0
                    add("split", split, p, mu, None, pos, None, "method")
                    if p < 3 and len(mu) < 2:
                        add("split", split, p, mu, "pos", pos, None, "function")
                    for num in range(1, p - s + 1):
                        if num == 1 or p < 3:
                            add("insertion", inserted, p, mu, None, pos, num)
                        if p == 2 and len(mu) < 2 and num == 1:
                            add("insertion", inserted, p, mu, "pos", pos, num)
                        add("insertion kernel", knot_insert, p, mu, pos, num, mods=(KN,))
        for n in (p + 1, p + 2):
            add("default knots", default_knots, p, n)
            for side in ("before", "after"):
                add("outside the domain", extrapolated, p, n, side, None)
            add("unclamped", inside_unclamped, p, n)
            if p < 3:
                for how in ("ctor", "make", "wrapped", "copy", "reduce"):
                    for w in (None, "pos"):
                        if w and n > p + 1:
                            continue
                        for k in (-1, 1) if not w else (1,):
                            add("periodic", periodic, p, n, w, how, k)
            elif p == 3 and n == p + 1:
                for how in ("ctor", "wrapped"):
                    add("periodic", periodic, p, n, None, how, 2)
            for w in (None, "pos") if p < 3 else (None,):
                add("opened", opened, p, n, w)
        for cl in (True, False):
            for n in range(p + 1, p + 4):
                add("generated knots", generated, p, n, cl, mods=(KN,))
    for n in (2, 3):
        add("outside the domain", extrapolated, 1, n, "before", "pos")
    for p in (2, 3):
        for w in (None, "w"):
            for wh in range(4):
                if not (w and p == 3):
                    add("frame", frame, p, w, wh)
    for what in ("weights", "points", "knots", "set", "copy", "reduce"):
        for p, mu in ((1, (1,)), (2, ()), (2, (1,))):
            add("changed", changed, p, mu, what)
    for pl in ("default", "turned"):
        for piece in range(9):
            add("circle", circle, piece, pl)
    for mod in (BU, CU):
        for fn in ("calcSurfacePoint", "calc_surface_point"):
            for pu, pv, mu, mv, w in ((1, 1, (), (), None), (1, 1, (1,), (), None), (2, 1, (), (), None), (1, 2, (), (1,), None), (2, 2, (), (), None),
                                      (1, 1, (), (), "pos"), (2, 1, (), (), "pos")):
                add("surface", lambda c, mod, *a: utils_surface(c, mod, *a), mod, pu, pv, mu, mv, w, fn, mods=(mod,))
    add("refused", bad_generated, 0, 3, mods=(KN,))
    add("refused", bad_generated, 2, 0, mods=(KN,))
    for p, n in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4)):
        for via in ("kernel", "spline"):
            add("interpolation", interpolated, p, n, via)
    return out
