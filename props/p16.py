from common import *

BOUNDS = ("degree elevation of Bezier points (degree 1-4, by 1-3) and of piecewise curves (degree 1-3, up to 2 interior knots with multiplicity, by 1-2); "
          "ruled surfaces, joined and composed curves of degree 1-3, polynomial and rational, on arbitrary domains, every coordinate, weight, knot and "
          "parameter symbolic; trimmed, reparametrized and combined curves at symbolic parameters")
OUTSIDE = "higher degrees, periodic curves, joining curves without a common end point, the finite-difference derivatives' truncation error on non-quadratic curves"

KN, RUL, PAR, CUB, PCUB, CRV = ("mmcore.geom.curves.knot", "mmcore.construction.ruled", "mmcore.geom.parametric", "mmcore.geom.curves._cubic",
                                "mmcore.geom.curves.cubic", "mmcore.geom.curves.curve")


def C(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def bernstein(P, u):
    n = len(P) - 1
    return [sum_([C(n, i) * u ** i * (1 - u) ** (n - i) * P[i][j] for i in range(n + 1)]) for j in range(len(P[0]))]


def hom(P):
    return [[x * r[3] for x in r[:3]] + [r[3]] for r in P] if len(P[0]) == 4 else [r + [1] for r in P]


def elev_bez(c, p, num, d):
    m = c.mod(KN)
    P = [[c.real(f"P{i}_{j}") for j in range(d)] for i in range(p + 1)]
    u = c.real("u", 0, 1)
    c.feasible()
    Q, q = m.degree_elevation_bez(c.array(P), p, num)
    c.check("degree", q == p + num)
    Q = lst(Q)
    c.check("count", len(Q) == p + num + 1)
    c.eqv("point", bernstein(Q, u), bernstein(P, u))
    c.eqv("start", Q[0], P[0])
    c.eqv("end", Q[-1], P[-1])
    st, ex = c.call(m.degree_elevation_bez, c.array(P), p + 1, num)
    c.check("piecewise refused", st == "err")


def valid_knots(c, label, U, n, p):
    c.check(label + " length", len(U) == n + p + 1, f"{len(U)} {n} {p}")
    for i in range(len(U) - 1):
        c.check(label + " ordered", U[i] <= U[i + 1])
    for i in range(p):
        c.eq(label + " start", U[i], U[i + 1])
        c.eq(label + " end", U[-1 - i], U[-2 - i])


def content(crv):
    P = [list(r) for r in lst(crv.control_pointsw)]
    return lst(crv.knots), crv.degree, P


def make(c, name, p, mult, w, sparse=True, unit=False):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, name + "k", p, mult, unit)
    P = (ctrl_sparse if sparse else ctrl)(c, name, n, 3, w)
    return b, kn, P


def at(c, kn, p, P, u):
    return ref_curve(kn, p, [r[:3] for r in P], u, [r[3] for r in P] if len(P[0]) == 4 else None)


def elev(c, p, mult, w, num, where):
    m = c.mod(KN)
    b, kn, P = make(c, "A", p, mult, w)
    u = inside(c, "u", b, where)
    c.feasible()
    crv = curve(c, P, p, kn)
    d = m.degree_elevate_curve(crv, num)
    c.check("degree", d.degree == p + num)
    U, q, Q = content(d)
    valid_knots(c, "knots", U, len(Q), q)
    it = d.interval()
    c.eqv("domain", [it[0], it[1]], [b[0], b[-1]])
    for x in b[1:-1]:
        c.check("breakpoint kept", c.Or(*[k == x for k in U]))
    c.eqv("point", lst(d.evaluate(u))[:3], at(c, kn, p, P, u))
    same_knots(c, "original", crv.knots, kn)
    c.eqm("original points", [r[:3] for r in lst(crv.control_pointsw)], [r[:3] for r in P])


def inside(c, name, b, where):
    """where: index of the knot interval, or 'e' the end of the domain"""
    if where == "e":
        return b[-1]
    u = c.real(name, c.q(1, 2), 8)
    c.assume(b[where] <= u)
    c.assume(u < b[where + 1])
    return u


def merge_knots(c, m1, m2, how):
    """multiplicity of every knot in the union is the larger of the two"""
    f = c.mod(RUL if how == "ruled" else KN).merge_knot_vectors
    k = len(m1)
    b = breakpoints(c, "b", k, lo=c.q(1, 2))
    c.feasible()
    A = [x for x, n in zip(b, m1) for _ in range(n)]
    B = [x for x, n in zip(b, m2) for _ in range(n)]
    got = lst(f(c.array(A), c.array(B)))
    c.eqv("union", got, [x for x, i, j in zip(b, m1, m2) for _ in range(max(i, j))])


def compatible(c, p1, mu1, w1, p2, mu2, w2, where):
    m = c.mod(RUL)
    b1, k1, P1 = make(c, "A", p1, mu1, w1, unit=True)
    b2, k2, P2 = make(c, "B", p2, mu2, w2, unit=True)
    apart(c, b1[1:-1], b2[1:-1])
    u = inside(c, "u", b1, where) if where != "e" else c.num(1)
    c.feasible()
    x, y = m.make_curves_compatible(curve(c, P1, p1, k1), curve(c, P2, p2, k2))
    U, p, Q1 = content(x)
    V, q, Q2 = content(y)
    c.check("same degree", p == q == max(p1, p2))
    c.eqv("same knots", U, V)
    c.check("same count", len(Q1) == len(Q2))
    valid_knots(c, "knots", U, len(Q1), p)
    c.eqv("first unchanged", lst(x.evaluate(u))[:3], at(c, k1, p1, P1, u))
    c.eqv("second unchanged", lst(y.evaluate(u))[:3], at(c, k2, p2, P2, u))


def apart(c, xs, ys):
    for x in xs:
        for y in ys:
            c.assume(c.Or(x == y, x + c.q(*SEP) <= y, y + c.q(*SEP) <= x))


def ruled(c, p1, mu1, w1, p2, mu2, w2, where, v):
    m = c.mod(RUL)
    b1, k1, P1 = make(c, "A", p1, mu1, w1)
    b2, k2, P2 = make(c, "B", p2, mu2, w2, unit=bool(mu1))
    if mu1:
        # interior knots of the two normalized vectors: equal or apart
        apart(c, [(x - b1[0]) / (b1[-1] - b1[0]) for x in b1[1:-1]], b2[1:-1])
    u = c.num(1) if where == "e" else c.real("u", 0, 1)
    if where not in ("e", 0):
        c.assume(False)
    x = b1[0] + u * (b1[-1] - b1[0])
    y = b2[0] + u * (b2[-1] - b2[0])
    vv = c.num(v) if v is not None else c.real("v", 0, 1)
    c.feasible()
    A, B = curve(c, P1, p1, k1), curve(c, P2, p2, k2)
    s = m.ruled(A, B)
    got = lst(s.evaluate(c.array([u, vv])))[:3]
    e1, e2 = at(c, k1, p1, P1, x), at(c, k2, p2, P2, y)
    if v == 0:
        c.eqv("first boundary", got, e1)
    elif v == 1:
        c.eqv("second boundary", got, e2)
    elif w1 is None and w2 is None:
        c.eqv("straight rulings", got, [(1 - vv) * s_ + vv * t for s_, t in zip(e1, e2)])
    else:
        # a point of the segment between the two boundary points: (1 - k) e1 + k e2 with 0 <= k = v w2 / ((1 - v) w1 + v w2) <= 1
        W1, W2 = [ref_curve(k, p, [[r[3] if len(r) == 4 else c.num(1)] for r in P], x_, None, 1)[0] for k, p, P, x_ in ((k1, p1, P1, x), (k2, p2, P2, y))]
        W = (1 - vv) * W1 + vv * W2
        c.eqv("on the ruling", got, [((1 - vv) * W1 * a + vv * W2 * b) / W for a, b in zip(e1, e2)])
    same_knots(c, "first curve", A.knots, k1)
    same_knots(c, "second curve", B.knots, k2)


def par_ruled(c, kind, w, p1, p2, what):
    m = c.mod(PAR)
    b1, k1, P1 = make(c, "A", p1, (), w)
    b2, k2, P2 = make(c, "B", p2, (), w)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    L1, L2 = b1[1] - b1[0], b2[1] - b2[0]
    x, y = b1[0] + u * L1, b2[0] + u * L2
    c.feasible()
    A, B = curve(c, P1, p1, k1), curve(c, P2, p2, k2)
    s = (m.RationalRuled if kind == "rational" else m.Ruled)(A, B)
    uv = c.array([u, v])

    def d(k, kn, p, P, t):
        if len(P[0]) == 4:
            return curve_rd(kn, p, P, t, k)
        return ref_curve_d(kn, p, P, t, k)
    mix = lambda f, g, a=1, b=1: [(1 - v) * a * i + v * b * j for i, j in zip(f, g)]
    e1, e2 = d(0, k1, p1, P1, x), d(0, k2, p2, P2, y)
    if what == "point":
        c.eqv("point", lst(s.evaluate(uv)), mix(e1, e2))
        c.eqv("point v2", lst(s.evaluate_v2(u, v)), mix(e1, e2))
        c.eqv("many", lst(s.evaluate_multi(c.array([[u, v], [u, 0]])))[1], e1)
        c.eqv("derivative v", lst(s.derivative_v(uv)), [j - i for i, j in zip(e1, e2)])
    elif what == "u":
        c.eqv("derivative u", lst(s.derivative_u(uv)), mix(d(1, k1, p1, P1, x), d(1, k2, p2, P2, y), L1, L2))
    elif what == "uu":
        c.eqv("second derivative uu", lst(s.second_derivative_uu(uv)), mix(d(2, k1, p1, P1, x), d(2, k2, p2, P2, y), L1 * L1, L2 * L2))
        c.eqv("second derivative vv", lst(s.second_derivative_vv(uv)), [0, 0, 0])
    if what == "point":
        it = s.interval()
        c.eqm("domain", [[q for q in r] for r in it], [[0, 1], [0, 1]])


def curve_rd(kn, p, P, t, k):
    """derivatives of a rational curve by the quotient rule"""
    H = hom(P)
    D = [ref_curve_d(kn, p, H, t, i, 4) for i in range(k + 1)]
    out = []
    for i in range(k + 1):
        a = list(D[i][:3])
        for j in range(1, i + 1):
            a = [x - C(i, j) * D[j][3] * y for x, y in zip(a, out[i - j])]
        out.append([x / D[0][3] for x in a])
    return out[k]


def bilinear(c):
    m = c.mod(PAR)
    P = [[c.real(f"P{i}_{j}") for j in range(3)] for i in range(4)]
    u, v = c.real("u"), c.real("v")
    c.feasible()
    s = m.BiLinear(*[c.array(r) for r in P])
    uv = c.array([u, v])
    a, b, d, e = P          # corners 00, 10, 11, 01

    def f(w):
        return [w[0] * i + w[1] * j + w[2] * k + w[3] * l for i, j, k, l in zip(a, b, d, e)]
    W = [(1 - u) * (1 - v), u * (1 - v), u * v, (1 - u) * v]
    c.eqv("point", lst(s.evaluate(uv)), f(W))
    c.eqv("point v2", lst(s.evaluate_v2(u, v)), f(W))
    c.eqv("derivative u", lst(s.derivative_u(uv)), f([v - 1, 1 - v, v, -v]))
    c.eqv("derivative v", lst(s.derivative_v(uv)), f([u - 1, -u, u, 1 - u]))
    c.eqv("second derivative uv", lst(s.second_derivative_uv(uv)), f([1, -1, 1, -1]))
    c.eqv("second derivative uu", lst(s.second_derivative_uu(uv)), [0, 0, 0])
    c.eqv("second derivative vv", lst(s.second_derivative_vv(uv)), [0, 0, 0])
    D = lst(s.derivatives(uv))
    c.eqv("derivatives u", D[0], f([v - 1, 1 - v, v, -v]))
    c.eqv("derivatives v", D[1], f([u - 1, -u, u, 1 - u]))
    q, r = s.__reduce__()[:2]
    c.eqv("copy", lst(q(*r).evaluate(uv)), f(W))


def join(c, p1, mu1, w1, p2, mu2, w2, ends, side, where):
    """ends: (which end of the first, which end of the second) coincide; side: which part of the result is looked at"""
    m = c.mod(KN)
    b1, k1, P1 = make(c, "A", p1, mu1, w1)
    b2, k2, P2 = make(c, "B", p2, mu2, w2)
    i, j = -ends[0], -ends[1]
    P2[j] = P1[i][:3] + P2[j][3:]
    if w1 and not w2:
        P2 = [r + [c.num(1)] for r in P2]
    if w2 and not w1:
        P1 = [r + [c.num(1)] for r in P1]
    # the other ends are apart
    o1, o2 = P1[-1 - i], P2[-1 - j]
    c.assume(o1[0] >= P1[i][0] + c.q(1, 4))
    c.assume(o2[0] <= P1[i][0] - c.q(1, 4))
    t = inside(c, "t", b1 if side == 0 else b2, where)
    c.feasible()
    A, B = curve(c, P1, p1, k1), curve(c, P2, p2, k2)
    r = m.join_two_curves(A, B)
    U, q, Q = content(r)
    c.check("degree", q == max(p1, p2))
    valid_knots(c, "knots", U, len(Q), q)
    # first curve runs towards the joint, second away from it
    L1, L2 = b1[-1] - b1[0], b2[-1] - b2[0]
    it = r.interval()
    s0, s1 = it[0], it[1]
    c.eq("length of the domain", s1 - s0, L1 + L2)
    if side == 0:
        s = s0 + ((t - b1[0]) if ends[0] == 1 else (b1[-1] - t))
        want = at(c, k1, p1, P1, t)
    else:
        s = s0 + L1 + ((t - b2[0]) if ends[1] == 0 else (b2[-1] - t))
        want = at(c, k2, p2, P2, t)
    c.eqv("point", lst(r.evaluate(s))[:3], want)


def compose(c, p, mus, w, side, where):
    m = c.mod(KN)
    parts = [make(c, "AB"[i], p, mu, w) for i, mu in enumerate(mus)]
    parts[1][2][0] = parts[0][2][-1][:3] + parts[1][2][0][3:]
    b, kn, P = parts[side]
    t = inside(c, "t", b, where)
    c.feasible()
    kv, cp, joints = m.compose_curves([curve(c, Q, p, k) for _, k, Q in parts])
    kv, cp = lst(kv), lst(cp)
    valid_knots(c, "knots", kv, len(cp), p)
    c.eqv("joints", lst(joints), [1])
    s = side + (t - b[0]) / (b[-1] - b[0])
    Q = cp if w else [r[:3] for r in cp]
    if not w:
        c.eqv("weights", [r[3] for r in cp], [1] * len(cp))
    crv = curve(c, Q, p, kv)
    c.eqv("point", lst(crv.evaluate(s))[:3], at(c, kn, p, P, t))


def cubic(c, how):
    P = [[c.real(f"P{i}_{j}") for j in range(3)] for i in range(4)]
    t = c.real("t", 0, 1)
    c.feasible()
    crv = (c.mod(CUB) if how == "c" else c.mod(PCUB)).__dict__["CubicSpline" if how == "c" else "PyCubicSpline"](*[c.array(r) for r in P])
    c.eqv("point", lst(crv.evaluate(t)), bernstein(P, t))
    if how == "py":
        c.eqv("corners", lst(crv.p0) + lst(crv.c0) + lst(crv.c1) + lst(crv.p1), [x for r in P for x in r])
        return
    D = [[3 * (y - x) for x, y in zip(P[i], P[i + 1])] for i in range(3)]
    c.eqv("derivative", lst(crv.derivative(t)), bernstein(D, t))
    DD = [[2 * (y - x) for x, y in zip(D[i], D[i + 1])] for i in range(2)]
    c.eqv("second derivative", lst(crv.second_derivative(t)), bernstein(DD, t))
    if how == "c":
        c.eqv("start", lst(crv.start()), P[0])
        c.eqv("end", lst(crv.end()), P[3])
        c.eqm("called", lst(crv(c.array([t, 0]))), [bernstein(P, t), P[0]])
        c.eqm("called with one", lst(crv(c.array([t]))), [bernstein(P, t)])
        c.eqm("sampled", lst(crv.points(3)), [P[0], bernstein(P, c.q(1, 2)), P[3]])


def reparam(c, p, w, what):
    m = c.mod(PAR)
    b, kn, P = make(c, "A", p, (), w)
    lo, hi = c.real("lo"), c.real("hi")
    c.assume(lo + c.q(1, 8) <= hi)
    t = c.real("t")
    c.assume(lo <= t)
    c.assume(t <= hi)
    c.feasible()
    r = m.ReparametrizedCurve(curve(c, P, p, kn), (lo, hi))
    k = (b[1] - b[0]) / (hi - lo)
    x = b[0] + (t - lo) * k
    if what == "point":
        it = r.interval()
        c.eqv("domain", [it[0], it[1]], [lo, hi])
        c.eqv("point", lst(r.evaluate(t)), at(c, kn, p, P, x))
        c.eqv("start", lst(r.start()), P[0][:3])
        c.eqv("end", lst(r.end()), P[-1][:3])
    elif what == "d1":
        c.eqv("derivative", lst(r.derivative(t)), [k * v for v in ref_curve_d(kn, p, P, x, 1)])
    else:
        c.eqv("second derivative", lst(r.second_derivative(t)), [k * k * v for v in ref_curve_d(kn, p, P, x, 2)])


def quad(c, A):
    """a quadratic curve: its finite differences are exact up to the step"""
    return lambda t: c.array([a[0] + a[1] * t + a[2] * t * t for a in A])


def py_curve(c, how):
    """derivatives of curves given by a function of the parameter"""
    m = c.mod(CRV)
    A = [[c.real(f"a{i}_{j}") for j in range(3)] for i in range(3)]
    lo, hi = c.real("lo"), c.real("hi")
    c.assume(lo + c.q(1, 2) <= hi)
    t = c.real("t")
    c.assume(lo <= t)
    c.assume(t <= hi)
    c.feasible()
    seen = []
    f = quad(c, A)

    def g(x):
        seen.append(x)
        return f(x)
    crv = m.parametric_curve((lo, hi))(g)
    it = crv.interval()
    c.eqv("domain", [it[0], it[1]], [lo, hi])
    c.eqv("point", lst(crv.evaluate(t)), lst(f(t)))
    h = c.num(m.DEFAULT_H) if not c.sym else c.q(1, 1000)
    if how == "d1":
        seen.clear()
        d = lst(crv.derivative(t))
        for x in seen:
            c.check("inside the domain", c.And(lo <= x, x <= hi))
        for i in range(3):
            e = d[i] - (A[i][1] + 2 * A[i][2] * t)
            # one-sided differences of a quadratic are off by h times its leading coefficient
            inner = c.And(t >= lo + h, t <= hi - h)
            s = c.q(1, 10 ** 6)
            c.check("derivative", c.Implies(inner, c.And(e <= s, -e <= s)))
            bound = c.abs(A[i][2]) * h + s
            c.check("derivative near the ends", c.And(e <= bound, -e <= bound))
    elif how == "many":
        c.eqm("called", lst(crv(c.array([t, lo]))), [lst(f(t)), lst(f(lo))])
        c.eqm("sampled", lst(crv.points(3)), [lst(f(lo)), lst(f((lo + hi) / 2)), lst(f(hi))])
    elif how == "trim":
        r = m.TrimmedCurve(crv, lo, t)
        c.eqv("trimmed domain", list(r.interval()), [lo, t])
        c.eqv("trimmed point", lst(r.evaluate(t)), lst(f(t)))
        r.end = hi
        c.eqv("end moved", [r.start, r.end], [lo, hi])
        r.start = t
        c.eqv("start moved", list(r.interval()), [t, hi])
        r = m.TrimmedCurve(crv)
        c.eqv("whole", list(r.interval()), [lo, hi])
        a, b = crv.split(t)
        c.eqv("split domains", list(a.interval()) + list(b.interval()), [lo, t, t, hi])
        c.eqv("split points", lst(a.evaluate(lo)) + lst(b.evaluate(hi)), lst(f(lo)) + lst(f(hi)))
    elif how == "param":
        c.eq("normalized", crv.normalize_param(t), (t - lo) / (hi - lo))
        c.eq("remapped", crv.remap_param((t - lo) / (hi - lo)), t)
    elif how == "extend":
        e = c.real("e", 0, 1)
        crv.extend(e, 2 * e)
        c.eqv("extended", list(crv.interval()), [lo - e, hi + 2 * e])


def nodes(c, op):
    m = c.mod(CRV)
    A = [[c.real(f"a{i}_{j}") for j in range(3)] for i in range(3)]
    B = [[c.real(f"b{i}_{j}") for j in range(3)] for i in range(3)]
    I = [c.real(x) for x in ("l0", "h0", "l1", "h1")]
    t = c.real("t")
    v = [c.real(f"v{i}", 1, 8) for i in range(3)]
    for i in (0, 2):
        c.assume(I[i] + c.q(1, 2) <= I[i + 1])
    c.assume(I[0] <= t)
    c.assume(t <= I[1])
    c.feasible()
    f, g = m.parametric_curve((I[0], I[1]))(quad(c, A)), m.parametric_curve((I[2], I[3]))(quad(c, B))
    fn = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}[op]
    a = lst(quad(c, A)(t))
    r = fn(f, c.array(v))
    c.eqv("curve and value", lst(r.evaluate(t)), [fn(x, y) for x, y in zip(a, v)])
    c.eqv("domain", list(r.interval()), [I[0], I[1]])
    if op != "div":
        r = fn(f, g)
        b = lst(quad(c, B)(t))
        c.eqv("curve and curve", lst(r.evaluate(t)), [fn(x, y) for x, y in zip(a, b)])
        lo, hi = r.interval()
        for x in (I[0], I[2]):
            c.check("starts inside both", lo >= x)
        for x in (I[1], I[3]):
            c.check("ends inside both", hi <= x)
        c.check("no smaller", c.And(c.Or(lo == I[0], lo == I[2]), c.Or(hi == I[1], hi == I[3])))
        r = fn(f, lambda s: c.array([s, s + 1, 2 * s]))
        c.eqv("curve and function", lst(r.evaluate(t)), [fn(x, y) for x, y in zip(a, [t, t + 1, 2 * t])])


def cases(tier):
    out = []
    big = tier != "quick"

    def A(name, fn, *a, mods=(), **k):
        out.append(Case(name_of(name, *a), fn, a, mods=mods or (NURBS, KN), **k))
    for p in range(1, 5):
        for num in (1, 2, 3):
            A("elevate bezier", elev_bez, p, num, 4 if num == 1 else 1, mods=(KN,))
    for p, mu in [(1, ()), (2, ()), (3, ()), (1, (1,)), (2, (1,)), (2, (2,)), (3, (1,)), (3, (2,)), (2, (1, 1))] + ([(3, (3,)), (3, (1, 1)), (3, (2, 1))] if big else []):
        for w in (None, "pos"):
            if w and (p > 2 or len(mu) > 1) and not big:
                continue
            for num in (1, 2) if p < 3 or big else (1,):
                for where in list(range(len(mu) + 1)) + ["e"]:
                    A("elevate curve", elev, p, mu, w, num, where)
    for m1, m2 in [((2, 2), (2, 2)), ((3, 1, 0, 3), (3, 0, 2, 3)), ((2, 1, 2), (2, 2, 2)), ((3, 0, 0, 1, 3), (3, 1, 2, 0, 3))]:
        for how in ("ruled", "knot"):
            A("merge knots", merge_knots, m1, m2, how, mods=(RUL, KN))
    for p1, mu1, w1, p2, mu2, w2 in [(1, (), None, 2, (), None), (2, (1,), None, 2, (), None), (2, (), None, 2, (1,), None), (1, (1,), None, 1, (1,), None),
                                     (2, (1,), None, 1, (), None), (2, (), "pos", 1, (), None), (1, (1,), "pos", 1, (), "pos")]:
        for where in list(range(len(mu1) + 1)) + ["e"]:
            A("compatible", compatible, p1, mu1, w1, p2, mu2, w2, where, mods=(RUL, KN, NURBS))
    for p1, mu1, w1, p2, mu2, w2 in [(1, (), None, 1, (), None), (1, (), None, 2, (), None), (2, (), None, 2, (), None), (2, (1,), None, 2, (), None), (1, (1,), None, 1, (1,), None),
                                     (3, (), None, 2, (), None), (1, (), "pos", 1, (), "pos"), (2, (), "pos", 1, (), None), (2, (), "pos", 2, (), "pos"), (1, (), None, 1, (1,), None)]:
        for v in (0, 1, None):
            for where in (0, "e"):
                A("ruled", ruled, p1, mu1, w1, p2, mu2, w2, where, v, mods=(RUL, KN, NURBS))
    for kind, w in (("plain", None), ("rational", None), ("plain", "pos"), ("rational", "pos")):
        for p1, p2 in ((1, 2), (2, 2), (3, 1)):
            if w and p1 + p2 > 3 and not big:
                continue
            for what in ("point", "u", "uu"):
                A("parametric ruled", par_ruled, kind, w, p1, p2, what, mods=(PAR, NURBS))
    A("bilinear", bilinear, mods=(PAR,))
    for e in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for p1, mu1, w1, p2, mu2, w2 in [(2, (), None, 2, (), None), (1, (1,), None, 2, (), None), (2, (), None, 1, (), None), (1, (), "pos", 1, (), "pos"), (2, (), "pos", 1, (), None)]:
            for side in (0, 1):
                mu = (mu1, mu2)[side]
                for where in range(len(mu) + 1):
                    A("join", join, p1, mu1, w1, p2, mu2, w2, e, side, where)
    for p, mus, w in [(1, ((), ()), None), (2, ((), ()), None), (2, ((1,), ()), None), (2, ((), (1,)), None), (1, ((), ()), "pos"), (2, ((), ()), "pos")]:
        for side in (0, 1):
            for where in range(len(mus[side]) + 1):
                A("compose", compose, p, mus, w, side, where)
    A("cubic", cubic, "c", mods=(CUB,))
    A("cubic", cubic, "py", mods=(PCUB,))
    for p, w in ((1, None), (2, None), (3, None)):
        for what in ("point", "d1", "d2"):
            A("reparametrized", reparam, p, w, what, mods=(PAR, NURBS))
    for how in ("d1", "many", "trim", "param", "extend"):
        A("function curve", py_curve, how, mods=(CRV,))
    for op in ("add", "sub", "mul", "div"):
        A("combined", nodes, op, mods=(CRV,))
    return out
