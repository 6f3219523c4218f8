from common import *

BOUNDS = ("Coons patches, ruled and bilinear surfaces of the Python layer over NURBS curves of degree 1-3 and function curves with polynomial components, on the unit and on arbitrary domains, every coordinate and "
          "parameter symbolic; numerical derivatives of bilinear surfaces; curves on bilinear surfaces and offsets of planar parabolas at symbolic parameters; intersection curvature for arbitrary derivative vectors over "
          "listed tangent planes; surface trees of 2x2 to 3x3 cells")
OUTSIDE = "truncation error of numerical derivatives on surfaces of higher degree, projection of points to surfaces (Newton), arc-length tables (interpolation of quadratures), tessellation, rounding"

SU, CU, CURV, OFF, CUB = "mmcore.geom.surfaces", "mmcore.geom.curves.curve", "mmcore.geom.curves", "mmcore.geom.curves.offset", "mmcore.geom.curves.cubic"


def bez(P, t):
    p = len(P) - 1
    cf = {1: (1, 1), 2: (1, 2, 1), 3: (1, 3, 3, 1)}[p]
    return [sum_([cf[i] * t ** i * (1 - t) ** (p - i) * P[i][j] for i in range(p + 1)]) for j in range(3)]


def dbez(P, t):
    p = len(P) - 1
    if p == 1:
        return [b - a for a, b in zip(*P)]
    return bez([[p * (P[i + 1][j] - P[i][j]) for j in range(3)] for i in range(p)], t)


def ddbez(P, t):
    p = len(P) - 1
    if p == 1:
        return [0, 0, 0]
    D = [[p * (P[i + 1][j] - P[i][j]) for j in range(3)] for i in range(p)]
    return dbez(D, t)


def curve(c, name, p, kind, dom, ends=(None, None)):
    """-> (curve object, control points, start, length of the domain)"""
    P = [[c.real(f"{name}{i}_{j}", -8, 8) for j in range(3)] if not (i == 0 and ends[0] or i == p and ends[1]) else list(ends[0] if i == 0 else ends[1]) for i in range(p + 1)]
    if dom == "unit":
        a, b = c.num(0), c.num(1)
    else:
        a, b = c.real(name + "a", -4, 4), c.real(name + "b", -4, 8)
        c.assume(b - a >= c.q(1, 8))
    L = b - a
    if kind == "nurbs":
        K = c.mod(NURBS).NURBSCurve
        crv = K(c.array(P), p, knots=c.array([a] * (p + 1) + [b] * (p + 1)))
    else:
        crv = c.mod(CU).parametric_curve((a, b))(lambda t: c.array(bez(P, (t - a) / L)))
    return crv, P, a, L


def coons(c, p, kind, dom):
    m = c.mod(SU)
    O = [[c.real(f"X{i}_{j}", -8, 8) for j in range(3)] for i in range(4)]
    c1, C1, _, _ = curve(c, "c", p, kind, dom, (O[0], O[1]))
    d1, D1, _, _ = curve(c, "d", p, kind, dom, (O[1], O[2]))
    c2, C2, _, _ = curve(c, "e", p, kind, dom, (O[3], O[2]))
    d2, D2, _, _ = curve(c, "f", p, kind, dom, (O[0], O[3]))
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    c.feasible()
    S = m.Coons(c1, d1, c2, d2)
    E = lambda x, y: lst(S.evaluate(c.array([x, y])))
    c.eqv("lower side", E(u, c.num(0)), bez(C1, u))
    c.eqv("upper side", E(u, c.num(1)), bez(C2, u))
    c.eqv("left side", E(c.num(0), v), bez(D2, v))
    c.eqv("right side", E(c.num(1), v), bez(D1, v))
    w = [(1 - v) * x + v * y + (1 - u) * z + u * k - ((1 - u) * (1 - v) * o0 + u * (1 - v) * o1 + u * v * o2 + (1 - u) * v * o3)
         for x, y, z, k, o0, o1, o2, o3 in zip(bez(C1, u), bez(C2, u), bez(D2, v), bez(D1, v), *O)]
    c.eqv("inside", E(u, v), w)
    c.eqv("inside again", lst(S.evaluate_v2(u, v)), w)


def ruled(c, p, q, kind, dom, how):
    m = c.mod(SU)
    a, A, sa, La = curve(c, "a", p, kind, dom)
    b, B, sb, Lb = curve(c, "b", q, kind, dom)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    c.feasible()
    S = (m.PyRuled if how == "py" else m.Ruled)(a, b)
    uv = c.array([u, v])
    mix = lambda x, y: [(1 - v) * s + v * t for s, t in zip(x, y)]
    c.eqv("point", lst(S.evaluate(uv)), mix(bez(A, u), bez(B, u)))
    c.eqv("point of two numbers", lst(S.evaluate_v2(u, v)), mix(bez(A, u), bez(B, u)))
    c.eqv("derivative v", lst(S.derivative_v(uv)), [y - x for x, y in zip(bez(A, u), bez(B, u))])
    if kind == "nurbs":
        c.eqv("derivative u", lst(S.derivative_u(uv)), mix(dbez(A, u), dbez(B, u)))
        c.eqv("second derivative u", lst(S.second_derivative_uu(uv)), mix(ddbez(A, u), ddbez(B, u)))
    c.eqv("second derivative v", lst(S.second_derivative_vv(uv)), [0, 0, 0])


def bil(P, u, v):
    a, b, d, e = P            # (0,0) (1,0) (1,1) (0,1)
    return [(1 - u) * (1 - v) * w + u * (1 - v) * x + u * v * y + (1 - u) * v * z for w, x, y, z in zip(a, b, d, e)]


def quad(c, flat=False):
    if flat:                  # given corners over which the two directions are never parallel, one corner free
        k = c.pick("corner", 4)
        P = [[c.num(x) for x in p] for p in ((0, 0, 0), (4, 1, 1), (5, 5, -1), (-1, 4, 2))]
        P[k] = [P[k][0], P[k][1], c.real("z", -4, 4)]
        return P
    return [[c.real(f"P{i}_{j}", -8, 8) for j in range(3)] for i in range(4)]


def bilinear(c):
    m = c.mod(SU)
    P = quad(c)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    c.feasible()
    S = m.BiLinear(*[c.array(p) for p in P])
    uv = c.array([u, v])
    a, b, d, e = P
    c.eqv("point", lst(S.evaluate(uv)), bil(P, u, v))
    c.eqv("call", lst(S(uv)), bil(P, u, v))
    c.eqv("two numbers", lst(S.evaluate_v2(u, v)), bil(P, u, v))
    r = S(c.array([[u, v], [v, u]]))
    c.eqv("many", [x for q in lst(r) for x in lst(q)], bil(P, u, v) + bil(P, v, u))
    du = [(1 - v) * (y - x) + v * (z - w) for x, y, z, w in zip(a, b, d, e)]
    dv = [(1 - u) * (w - x) + u * (z - y) for x, y, z, w in zip(a, b, d, e)]
    duv = [x - y + z - w for x, y, z, w in zip(a, b, d, e)]
    c.eqv("derivative u", lst(S.derivative_u(uv)), du)
    c.eqv("derivative v", lst(S.derivative_v(uv)), dv)
    c.eqv("derivatives", [x for q in lst(S.derivatives(uv)) for x in lst(q)], du + dv)
    c.eqv("second uu", lst(S.second_derivative_uu(uv)), [0] * 3)
    c.eqv("second vv", lst(S.second_derivative_vv(uv)), [0] * 3)
    c.eqv("second uv", lst(S.second_derivative_uv(uv)), duv)
    c.eqv("second", [x for q in lst(S.second_derivatives(u, v)) for x in lst(q)], [0] * 3 + duv + [0] * 3) if False else None
    c.eqv("free function", lst(m.evaluate_bilinear([u, v], a, b, e, d)), bil(P, u, v))


def frame(c):
    m = c.mod(SU)
    P = quad(c, True)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    c.feasible()
    S = m.BiLinear(*[c.array(p) for p in P])
    uv = c.array([u, v])
    a, b, d, e = P
    du = [(1 - v) * (y - x) + v * (z - w) for x, y, z, w in zip(a, b, d, e)]
    dv = [(1 - u) * (w - x) + u * (z - y) for x, y, z, w in zip(a, b, d, e)]
    n = lst(S.normal(uv))
    c.eq("normal unit", c.dot(n, n), 1)
    c.eq("normal u", c.dot(n, du), 0)
    c.eq("normal v", c.dot(n, dv), 0)
    c.check("normal side", c.dot(n, c.cross(du, dv)) > 0)
    O, X, Y, Z = [lst(r) for r in lst(S.plane_at(uv))]
    c.eqv("origin", O, bil(P, u, v))
    c.eqv("z axis", Z, n)
    c.eq("x unit", c.dot(X, X), 1)
    c.eqv("x along u", c.cross(X, du), [0] * 3)
    c.check("x side", c.dot(X, du) > 0)
    c.eq("y unit", c.dot(Y, Y), 1)
    c.eq("y across x", c.dot(X, Y), 0)
    c.eq("y across z", c.dot(Z, Y), 0)
    c.check("y side", c.dot(Y, dv) > 0)


class _Dom:
    pass


def domain(c, P, u0, u1, v0, v1):
    """a bilinear surface over a given domain"""
    m = c.mod(SU)

    class Over(m.Surface):
        def interval(self):
            return (u0, u1), (v0, v1)

        def evaluate(self, uv):
            return c.array(bil(P, (uv[0] - u0) / (u1 - u0), (uv[1] - v0) / (v1 - v0)))
    return Over(), lambda u, v: bil(P, (u - u0) / (u1 - u0), (v - v0) / (v1 - v0))


def iso(c, which):
    P = quad(c)
    u0, u1, v0, v1 = c.num(0), c.num(2), c.num(1), c.num(4)
    S, f = domain(c, P, u0, u1, v0, v1)
    t = c.real("t", 0, 1)
    x, y = c.real("x", 0, 2), c.real("y", 1, 4)
    c.feasible()
    if which == "line u":
        crv, a, b = S.isoline_u(x), (x, v0), (x, v1)
    elif which == "line v":
        crv, a, b = S.isoline_v(y), (u0, y), (u1, y)
    elif which == "all":
        z, w = c.real("z", 0, 2), c.real("w", 1, 4)
        crv, a, b = S.isocurve(x, y, z, w), (x, y), (z, w)
    elif which == "none":
        crv, a, b = S.isocurve(), (u0, v0), (u1, v1)
    elif which == "start":
        crv, a, b = S.isocurve(u0=x, v0=y), (x, y), (u1, v1)
    elif which == "end":
        crv, a, b = S.isocurve(u1=x, v1=y), (u0, v0), (x, y)
    elif which == "u":
        z = c.real("z", 0, 2)
        crv, a, b = S.isocurve_u(x, z), (x, v0), (z, v1)
    else:
        z = c.real("z", 1, 4)
        crv, a, b = S.isocurve_v(y, z), (u0, y), (u1, z)
    i = lst(crv.interval())
    c.eqv("domain", i, [0, 1])
    c.eqv("start", lst(crv.evaluate(c.num(0))), f(*a))
    c.eqv("end", lst(crv.evaluate(c.num(1))), f(*b))
    c.eqv("point", lst(crv.evaluate(t)), f(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))


def on_surface(c, kind):
    m = c.mod(SU)
    P = quad(c, True)
    S = m.BiLinear(*[c.array(p) for p in P])
    t = c.real("t", c.q(1, 8), c.q(7, 8))
    A, B = (c.num(0), c.q(1, 4)), (c.num(1), c.real("y", 0, 1))
    c.feasible()
    uv = [A[0] + t * (B[0] - A[0]), A[1] + t * (B[1] - A[1])]
    if kind == "function":
        crv = m.CurveOnSurface(S, lambda s: c.array([A[0] + s * (B[0] - A[0]), A[1] + s * (B[1] - A[1])]))
    else:
        crv = m.CurveOnSurface(S, c.mod(NURBS).NURBSCurve(c.array([[*A, c.num(0)], [*B, c.num(0)]]), 1))
    p = bil(P, *uv)
    a, b, d, e = P
    du = [(1 - uv[1]) * (y - x) + uv[1] * (z - w) for x, y, z, w in zip(a, b, d, e)]
    dv = [(1 - uv[0]) * (w - x) + uv[0] * (z - y) for x, y, z, w in zip(a, b, d, e)]
    D = [(B[0] - A[0]) * x + (B[1] - A[1]) * y for x, y in zip(du, dv)]
    N = c.cross(du, dv)
    c.eqv("parameter", lst(crv.evaluate_curve(t)), uv)
    c.eqv("point", lst(crv.evaluate(t)), p)
    c.eqv("derivative", lst(crv.derivative(t)), D)
    O, X, Y, Z = [lst(r) for r in lst(crv.plane_at(t))]
    c.eqv("origin", O, p)
    c.eq("tangent unit", c.dot(X, X), 1)
    c.eqv("tangent", c.cross(X, D), [0] * 3)
    c.check("tangent side", c.dot(X, D) > 0)
    c.eq("normal unit", c.dot(Z, Z), 1)
    c.eqv("normal", c.cross(Z, N), [0] * 3)
    c.check("normal side", c.dot(Z, N) > 0)
    c.eqv("third axis", Y, c.cross(Z, X))
    st, n = c.call(crv.normal, t)
    if st != "ok":
        c.fail("side normal", f"{type(n).__name__} {n}")
    else:
        c.eqv("side normal", lst(n), c.cross(Z, X))


def two_point(c):
    m = c.mod(SU)
    p, q = [[c.real(f"{n}{i}", -8, 8) for i in range(2)] for n in "pq"]
    t, s = c.real("t", -2, 2), c.real("s", -8, 8)
    c.assume(c.Or(p[0] - q[0] >= c.q(1, 8), q[0] - p[0] >= c.q(1, 8)))
    c.assume(c.Or(p[1] - q[1] >= c.q(1, 8), q[1] - p[1] >= c.q(1, 8)))
    c.feasible()
    L = m.TwoPointForm(p, q)
    x, y = [a + t * (b - a) for a, b in zip(p, q)]
    c.eq("y", L.y(x), y)
    c.eq("x", L.x(y), x)
    c.eqv("direction", lst(L.direction()), [b - a for a, b in zip(p, q)])
    c.eq("zero on the line", L(x, y), 0)
    c.eq("distance off the line", L(x, y + s), -s * (q[0] - p[0]))


PLANES = (((1, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1)), ((2, 0, 0), (0, 3, 0), (0, 2, 1), (1, 0, 0)), ((1, 0, 0), (1, 2, 0), (0, 1, 0), (0, 3, 4)), ((1, 2, 0), (0, 1, 2), (1, 0, 0), (1, 1, 0)))


def inter_curv(c, k):
    """the curvature vector K of the curve common to two surfaces: across the tangent, and its part along each normal is that surface's normal curvature"""
    m = c.mod(SU)
    Su1, Sv1, Su2, Sv2 = [[c.num(x) for x in p] for p in PLANES[k]]
    H = [[c.real(f"{n}{i}", -4, 4) for i in range(3)] for n in ("a", "b", "d", "e", "f", "g")]
    c.feasible()
    st, r = c.call(m.compute_intersection_curvature, *[c.array(x) for x in (Su1, Sv1, *H[:3], Su2, Sv2, *H[3:])])
    if st != "ok":
        c.fail("curvature", f"{type(r).__name__} {r}")
        return
    K, T = lst(r[0]), lst(r[1])
    N1, N2 = c.cross(Su1, Sv1), c.cross(Su2, Sv2)
    c.eq("tangent unit", c.dot(T, T), 1)
    c.eq("tangent in the first plane", c.dot(T, N1), 0)
    c.eq("tangent in the second plane", c.dot(T, N2), 0)
    c.eq("across the tangent", c.dot(K, T), 0)
    for n, Su, Sv, N, (uu, uv, vv) in (("first", Su1, Sv1, N1, H[:3]), ("second", Su2, Sv2, N2, H[3:])):
        E, F, G = c.dot(Su, Su), c.dot(Su, Sv), c.dot(Sv, Sv)
        a, b = c.dot(T, Su), c.dot(T, Sv)
        det = E * G - F * F
        x, y = (a * G - b * F) / det, (b * E - a * F) / det
        c.eq(f"normal curvature of the {n}", c.dot(K, N), c.dot(uu, N) * x * x + 2 * c.dot(uv, N) * x * y + c.dot(vv, N) * y * y)


def tree(c, nu, nv):
    m = c.mod(SU)
    P = [[c.num(x) for x in p] for p in ((0, 0, 0), (4, 1, 1), (5, 5, -1), (-1, 4, 2))]
    k = c.pick("corner", 4)
    P[k] = [c.real(f"x{j}", -8, 8) for j in range(3)]
    c.off_ties(1, 10 ** 6)
    c.feasible()
    S, f = domain(c, P, c.num(0), c.num(2), c.num(1), c.num(4))
    root = m.surface_bvh(S, nu, nv)
    leaves, stack = [], [root]
    while stack:
        n = stack.pop()
        if n.object is not None:
            leaves.append(n.object)
        for ch in (n.left, n.right):
            if ch is not None:
                for j in range(3):
                    c.check("boxes nested", c.And(n.bounding_box.min_point[j] <= ch.bounding_box.min_point[j], n.bounding_box.max_point[j] >= ch.bounding_box.max_point[j]))
                stack.append(ch)
    want = []
    for i in range(nu - 1):
        for j in range(nv - 1):
            g = lambda s, t: (c.num(2) * s / (nu - 1), 1 + c.num(3) * t / (nv - 1))
            want.append([g(i, j), g(i + 1, j), g(i + 1, j + 1), g(i, j + 1)])
    c.check("cells", len(leaves) == len(want))
    for q in leaves:
        uvs = [lst(r) for r in lst(q.uvs)]
        hit = [w for w in want if all(bool(c.And(a[0] == b[0], a[1] == b[1])) for a, b in zip(uvs, w))]
        c.check("a cell of the grid", len(hit) == 1)
        if hit:
            want.remove(hit[0])
        for p, r in zip(lst(q.pts if hasattr(q, "pts") else q.points), uvs):
            c.eqv("corner", lst(p), f(*r))
        for j in range(3):
            for r in uvs:
                c.check("box holds the corners", c.And(q.bounding_box.min_point[j] <= f(*r)[j], q.bounding_box.max_point[j] >= f(*r)[j]))


def offset(c):
    m = c.mod(OFF)
    K = c.mod(NURBS).NURBSCurve
    a, b = c.real("a", -4, 4), c.real("b", 1, 4)
    P = [[c.num(0), c.num(0), c.num(0)], [c.num(2), a + b, c.num(0)], [c.num(4), a, c.num(0)]]
    d, t = c.real("d", -4, 4), c.real("t", 0, 1)
    c.assume(c.Or(a + 2 * b >= c.q(1, 8), a + 2 * b <= -c.q(1, 8)))      # not straight
    c.feasible()
    crv = m.OffsetCurve(K(c.array(P), 2), d)
    st, q = c.call(crv.evaluate, t)
    if st != "ok":
        c.fail("offset", f"{type(q).__name__}")
        return
    w = [x - y for x, y in zip(lst(q), bez(P, t))]
    c.eq("distance", c.dot(w, w), d * d)
    c.eq("across the curve", c.dot(w, dbez(P, t)), 0)
    c.eq("offset kept", crv.offset, d)
    e = c.real("e", -4, 4)
    crv.offset = e
    c.eq("offset set", crv.offset, e)
    v = [x - y for x, y in zip(lst(crv.evaluate(t)), bez(P, t))]
    c.eqv("same side for the same sign", [x * d for x in v], [x * e for x in w])


def cases(tier):
    out = []
    M = (SU, NURBS, CU)
    deep = tier == "thorough"
    for kind in ("nurbs", "function"):
        for dom in ("unit", "any"):
            for p in (1, 2, 3) if deep or kind == "nurbs" else (1, 3):
                out.append(Case(f"coons {kind} {dom} {p}", coons, (p, kind, dom), mods=M, time_s=200))
            for p, q in ((1, 1), (2, 1), (3, 2)):
                for how in ("py", "choose"):
                    out.append(Case(f"ruled {how} {kind} {dom} {p} {q}", ruled, (p, q, kind, dom, how), mods=M, time_s=200))
    out.append(Case("bilinear", bilinear, (), mods=M))
    out.append(Case("frame", frame, (), mods=M, time_s=200))
    for w in ("line u", "line v", "all", "none", "start", "end", "u", "v"):
        out.append(Case(f"iso {w}", iso, (w,), mods=M))
    for k in ("function", "nurbs"):
        out.append(Case(f"on surface {k}", on_surface, (k,), mods=M, time_s=200))
    out.append(Case("two points", two_point, (), mods=M))
    for k in range(len(PLANES)):
        out.append(Case(f"common curve {k}", inter_curv, (k,), mods=M))
    for a, b in ((2, 2), (3, 2), (2, 3)) + (((3, 3),) if deep else ()):
        out.append(Case(f"tree {a} {b}", tree, (a, b), mods=M, time_s=200))
    out.append(Case("offset", offset, (), mods=M + (OFF,)))
    return out
