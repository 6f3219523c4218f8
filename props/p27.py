import itertools

from common import *

CCX, CSX, NCSX, BI, RT, DC, PI, IP, NB = ("mmcore.numeric.intersection.ccx.ccx", "mmcore.numeric.intersection.csx", "mmcore.numeric.intersection.csx._ncsx",
                                      "mmcore.numeric.intersection.ssx.boundary_intersection", "mmcore.numeric.routines", "mmcore.numeric.divide_and_conquer",
                                      "mmcore.numeric.algorithms.point_inversion", "mmcore.numeric.algorithms.implicit_point", "mmcore.geom.nurbs")

BOUNDS = ("splitting intervals into up to 4 pieces; polylines of 1-2 pieces against planes, axes and rays at a coarse tolerance (0.2 of the parameter); "
          "pairs of segments at a tolerance of half their length; isocurves and boundary curves of surfaces up to degree (2,2), polynomial and rational, in every span; "
          "Newton's method of a line and a plane patch; point inversion on straight lines and plane patches from every start; implicit surfaces that are planes; "
          "up to 3 boundary intersections per pair of surfaces; the test of one candidate point of the curve-surface recursion for every result of the minimiser")
OUTSIDE = ("finding every intersection (the recursions run to tolerances of 1e-3 and beyond and prune with Qhull and arctangents), curved cases of Newton's method and inversion, "
           "tracing surface-surface curves, rounding; scipy's bisect is taken to return a root between points of opposite sign, mmcore's minimiser any point")


def need(c, label, cond, detail=""):
    c.check(label, cond, detail)
    return cond


class Patched:
    def __init__(self, m, **kw):
        self.m, self.kw = m, kw

    def __enter__(self):
        self.old = {k: getattr(self.m, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.m, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


def pieces(c, k):
    a, step = c.real("a", -8, 8), c.real("step", c.q(1, 4), 4)
    fr = c.real("fr", 0, 1)
    c.assume(fr > 0)
    c.off_ties(1, 10 ** 6)
    b = a + step * (k - 1) + fr * step
    c.feasible()
    R = lst(c.mod(RT).divide_interval(a, b, step))
    if not need(c, "number of pieces", len(R) == k, f"{len(R)}"):
        return
    c.eq("start", R[0][0], a)
    c.eq("end", R[-1][1], b, "1e-9")
    for i, (x, y) in enumerate(R):
        c.le(f"piece {i} ordered", x, y)
        c.le(f"piece {i} at most a step", y - x, step + c.q(1, 10 ** 9))
        if i:
            c.eq(f"piece {i} starts where the last ends", x, R[i - 1][1], "1e-9")


def bisector(c):
    """scipy's bisect, exactly: any root between two points of opposite sign"""
    n = [0]

    def bisect(f, a, b, *k, **kw):
        fa, fb = f(a), f(b)
        if bool(fa == 0):
            return a
        if bool(fb == 0):
            return b
        if bool(fa * fb > 0):
            raise ValueError("f(a) and f(b) must have different signs")
        n[0] += 1
        r = c.real(f"root{n[0]}", -50, 50)
        c.assume(r >= a)
        c.assume(r <= b)
        c.assume(f(r) == 0)
        return r
    return bisect


def exact(c):
    return {"bisect": bisector(c)} if type(c).__name__ == "Ctx" else {}


def poly(c, k):
    """a polyline of k pieces with its parameters"""
    n = k + 1
    P = [[c.real(f"x{i}", -4, 4), c.q(i, 1), c.real(f"z{i}", -4, 4)] for i in range(n)]
    b = [c.q(i, 2) for i in range(n)]
    return P, b


def crossings(c, R, at, b, cuts):
    for i, t in enumerate(R):
        t = c.num(t)
        c.le(f"root {i} after the start", b[0] - c.q(1, 10 ** 9), t)
        c.le(f"root {i} before the end", t, b[-1] + c.q(1, 10 ** 9))
        c.eq(f"root {i} is a crossing", at(t), 0, "1e-6")
    for i in range(len(cuts) - 1):
        lo, hi = at(cuts[i]), at(cuts[i + 1])
        c.check(f"crossing found in piece {i}", c.Or(lo * hi >= 0, *[c.And(cuts[i] - c.q(1, 10 ** 9) <= c.num(t), c.num(t) <= cuts[i + 1] + c.q(1, 10 ** 9)) for t in R]), f"{len(R)} found")


def pix(c, k, how):
    P, b = poly(c, k)
    kn = [b[0]] + b + [b[-1]]
    cur = curve(c, P, 1, c.array(kn))
    m = c.mod(CCX)
    at_ = lambda t: ref_curve(kn, 1, P, t)
    c.feasible()
    with Patched(c.mod(DC), **exact(c)):
        if how == "axis":
            at = lambda t: at_(t)[0]
            R = m.curve_pix(cur, lambda p: p[0], step=0.5, tol=0.2)
        elif how == "plane":
            d = c.real("d", -2, 2)
            at = lambda t: at_(t)[0] - at_(t)[2] * 2 - d
            R = m.curve_pix(cur, lambda p: p[0] - 2 * p[2] - d, step=0.5, tol=0.2)
        elif how == "object":
            class Half:
                def implicit(self, p):
                    return p[2] - 1
            at = lambda t: at_(t)[2] - 1
            R = m.curve_pix(cur, Half(), step=0.5, tol=0.2)
        elif how == "coarse":
            at = lambda t: at_(t)[0]
            R = m.curve_pix(cur, lambda p: p[0], step=0.3125, tol=0.125)
            b = [b[0], b[-1]]
            c.check("at most one for a segment", len(R) <= 1, f"{len(R)}")
    crossings(c, R, at, [c.num(0), b[-1]], [b[0], b[-1]] if how == "coarse" else b)


def named(c, how):
    """the axis, ray and plane searches are the general one with their functions"""
    m = c.mod(CCX)
    seen = []

    def rec(cur, fun, *a, **k):
        seen.append((cur, fun, a, k))
        return "found"
    p = [c.real(f"p{i}", -5, 5) for i in range(3)]
    o = [c.real(f"o{i}", -5, 5) for i in range(3)]
    ax = c.pick("axis", 3)
    cur = object()
    c.feasible()
    if how == "plane":
        s = c.mod(CSX)
        Pl = c.array([o, [c.num(0), c.num(1), c.num(0)], [c.num(-1), c.num(0), c.num(0)], [c.num(0), c.num(0), c.num(1)]])
        with Patched(s, curve_pix=rec):
            st, r = c.call(s.curve_x_plane, cur, Pl, ax)
        d = [x - y for x, y in zip(p, o)]
        want = [d[1], -d[0], d[2]][ax]
    elif how == "implicit":
        s = c.mod(CSX)
        class Im:
            def implicit(self, x):
                return x[ax] - o[0]
        with Patched(s, curve_pix=rec):
            st, r = c.call(s.csx, cur, Im())
        want = p[ax] - o[0]
    else:
        with Patched(m, curve_pix=rec):
            st, r = c.call(m.curve_x_axis, cur, ax) if how == "axis" else c.call(m.curve_x_ray, cur, c.array(o), ax)
        want = p[ax] if how == "axis" else o[ax] - p[ax]
    if st != "ok" or not seen:
        c.fail("search", f"{r!r}")
        return
    c.check("result passed on", r == "found")
    c.check("curve", seen[0][0] is cur)
    f = getattr(seen[0][1], "implicit", seen[0][1])
    c.eq("function", f(c.array(p)), want)


def dispatch(c, k1, k2):
    m = c.mod(CCX)
    call = []
    mk = lambda n: (lambda *a, **k: (call.append((n, a, k)), [n])[1])

    class Par:
        def evaluate(self, t):
            return t

    class Imp:
        def implicit(self, p):
            return p
    A, B = (Par if k1 == "p" else Imp)(), (Par if k2 == "p" else Imp)()
    tol = c.real("tol", c.q(1, 1000), 1)
    c.feasible()
    with Patched(m, curve_pix=mk("pix"), curve_ppx=mk("ppx"), curve_iix=mk("iix")):
        st, r = c.call(m.ccx, A, B, tol)
    want = {"pp": "ppx", "ii": "iix"}.get(k1 + k2, "pix")
    if not need(c, "returns", st == "ok", f"{r!r}"):
        return
    c.check("method", r == [want] and len(call) == 1, f"{r} {call}")
    a = call[0][1]
    if want == "pix":
        c.check("parametric curve first", a[0] is (A if k1 == "p" else B) and a[1] is (B if k1 == "p" else A))
    else:
        c.check("curves in order", a[0] is A and a[1] is B)
    if want == "ppx":
        c.eq("tolerance", call[0][2].get("tol", a[2] if len(a) > 2 else None), tol)


def ppx(c, cross):
    """two segments with a tolerance of the size of their halves"""
    x, s = c.real("x", -1, 1), c.real("s", c.q(1, 2), 1)
    z = c.real("z", -1, 1)
    P = [[c.num(-1), c.num(0), c.num(0)], [c.num(1), c.num(0), c.num(0)]]
    Q = [[x, -s, z], [x, s, z]]
    tol = c.q(1, 2)
    c.feasible()
    kn = [c.num(0), c.num(0), c.num(1), c.num(1)]
    A, B = curve(c, P, 1, c.array(kn)), curve(c, Q, 1, c.array(kn))
    R = c.mod(CCX).curve_ppx(A, B, tol=0.5)
    for i, (t, u) in enumerate(R):
        t, u = c.num(t), c.num(u)
        c.check(f"{i} in the domain", c.And(t >= 0, t <= 1, u >= 0, u <= 1))
        d = c.sub(ref_curve(kn, 1, P, t), ref_curve(kn, 1, Q, u))
        c.le(f"{i} within the tolerance", c.dot(d, d), tol * tol + c.q(1, 10 ** 6))
    c.check("crossing segments meet", c.Implies(z == 0, len(R) > 0), f"{len(R)}")


def isocurve(c, p, mult, rat, way, edge):
    (pu, pv), (mu, mv) = p, mult
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu, lo=c.num(0))
    bv, kv = clamped(c, "kv", pv, mv, lo=c.num(0))
    P = []
    for i in range(nu):
        P.append([])
        for j in range(nv):
            w = c.real(f"w{i}_{j}", c.q(1, 2), 2) if rat and (i + j) % 2 else c.num(1)
            P[-1].append([c.num(i), c.num(j), c.real(f"z{i}_{j}", -3, 3), w])
    H = [[[x * r[3] for x in r[:3]] + [r[3]] for r in row] for row in P]
    S = c.mod(NB).NURBSSurface(c.array(H), p, c.array(ku), c.array(kv))
    B = c.mod(BI)
    if edge:
        e = c.pick("edge", 4)
        s = on_domain(c, "s", bv if e < 2 else bu)
        c.feasible()
        cur = B.extract_surface_boundaries(S)[e]
        fix = [bu[0], bu[-1], bv[0], bv[-1]][e]
        way = "u" if e < 2 else "v"
        ip = B.IntersectionPoint(c.array([0.0, 0.0, 0.0]), s, (c.num(7), c.num(8)), e, True, S.interval())
        c.eqv("parameters of a point of the edge", lst(ip.surface1_params), [fix, s] if way == "u" else [s, fix])
    else:
        fix = on_domain(c, "fix", bu if way == "u" else bv)
        s = on_domain(c, "s", bv if way == "u" else bu)
        c.feasible()
        cur = B.extract_isocurve(S, fix, way)
    it = cur.interval()
    b2 = bv if way == "u" else bu
    c.eqv("domain", [it[0], it[1]], [b2[0], b2[-1]])
    u, v = (fix, s) if way == "u" else (s, fix)
    got = lst(cur.evaluate(s))[:3]
    c.eqv("point", got, ref_surface_h(c, ku, kv, p, H, u, v))


def ref_surface_h(c, ku, kv, p, H, u, v):
    rows = [ref_curve(kv, p[1], r, v) if len(r[0]) == 3 else [ref_curve(kv, p[1], [[x[k], 0, 0] for x in r], v)[0] for k in range(4)] for r in H]
    h = [ref_curve(ku, p[0], [[r[k], 0, 0] for r in rows], u)[0] for k in range(4)]
    return [h[i] / h[3] for i in range(3)]


def isocurve_range(c, way):
    kn = c.array([0.0, 0.0, 1.0, 1.0])
    S = c.mod(NB).NURBSSurface(c.array([[[c.num(i), c.num(j), c.num(0), c.num(1)] for j in range(2)] for i in range(2)]), (1, 1), kn, kn)
    s = c.real("s", -2, 3)
    c.feasible()
    st, r = c.call(c.mod(BI).extract_isocurve, S, s, way)
    c.check("accepted iff in the domain", c.And(s >= 0, s <= 1) if st == "ok" else c.Or(s < 0, s > 1), f"{st} {r!r}")
    st, r = c.call(c.mod(BI).extract_isocurve, S, s, "w")
    c.check("other directions refused", st == "err" and type(r).__name__ == "ValueError")


def start_params(c, e, first):
    d = [c.real(n, -4, 4) for n in ("u0", "u1", "v0", "v1", "t", "a", "b")]
    c.feasible()
    I = c.mod(BI).IntersectionPoint(c.array([0.0, 0.0, 0.0]), d[4], (d[5], d[6]), e, first, ((d[0], d[1]), (d[2], d[3])))
    on = [[d[0], d[4]], [d[1], d[4]], [d[4], d[2]], [d[4], d[3]]][e]
    x, y = I.get_start_params()
    want = [on, [d[5], d[6]]]
    if not first:
        want.reverse()
    c.eqv("first surface", lst(x), want[0])
    c.eqv("second surface", lst(y), want[1])
    c.eqv("stored first", lst(I.surface1_params), want[0])
    c.eqv("stored second", lst(I.surface2_params), want[1])


def boundary(c, where):
    """find_boundary_intersections with the curve-surface search replaced by its results"""
    kn = c.array([0.0, 0.0, 1.0, 1.0])
    mk = lambda z: c.mod(NB).NURBSSurface(c.array([[[c.num(i), c.num(j), c.num(z), c.num(1)] for j in range(2)] for i in range(2)]), (1, 1), kn, kn)
    A, B = mk(0), mk(5)
    tol = c.q(1, 8)
    xs = [c.real(f"x{i}", -2, 2) for i in range(len(where))]
    calls = []

    def csx(cur, sur, tol=None, ptol=None):
        k = len(calls)
        calls.append((cur, sur, tol))
        return [("transversal", c.array([x, c.num(0), c.num(0)]), (c.num(i + 1), c.num(i + 2), c.num(i + 3))) for i, (w, x) in enumerate(zip(where, xs)) if w == k]
    c.off_ties(1, 10 ** 4)
    c.feasible()
    with Patched(c.mod(BI), nurbs_csx=csx):
        R = c.mod(BI).find_boundary_intersections(A, B, tol=0.125)
    c.check("eight searches", len(calls) == 8, f"{len(calls)}")
    for k, (cur, sur, t) in enumerate(calls):
        c.check(f"search {k} against the other surface", sur is (B if k < 4 else A))
        s = c.q(1, 4)
        own = 0 if k < 4 else 5
        c.eqv(f"search {k} along its edge", lst(cur.evaluate(s))[:3], [[0, s, own], [1, s, own], [s, 0, own], [s, 1, own]][k % 4])
    order = sorted(range(len(xs)), key=lambda i: where[i])
    keep = []
    for i in order:
        near = False
        for j in keep:
            near = near or bool(c.abs(xs[i] - xs[j]) < tol)
        if not near:
            keep.append(i)
    if not need(c, "points within the tolerance of a kept one are dropped", len(R) == len(keep), f"{len(R)} {len(keep)}"):
        return
    for g, i in zip(R, keep):
        c.eq(f"point {i}", lst(g.point)[0], xs[i])
        c.check(f"edge {i}", g.boundary_index == where[i] % 4 and g.is_from_first_surface == (where[i] < 4))
        c.eq(f"curve parameter {i}", g.curve_param, i + 1)
        c.eqv(f"surface parameters {i}", list(g.surface_params), [i + 2, i + 3])


def grouped(c, n):
    I = c.mod(BI).IntersectionPoint
    xs = [c.real(f"x{i}", -4, 4) for i in range(n)]
    c.feasible()
    pts = [I(c.array([x, c.num(0), c.num(0)]), c.num(0), (c.num(0), c.num(0)), 0, True, ((c.num(0), c.num(1)), (c.num(0), c.num(1)))) for x in xs]
    R = c.mod(BI).sort_boundary_intersections(list(pts))
    flat = [p for s in R for p in s]
    c.check("every point once", len(flat) == n and all(any(p is f for f in flat) for p in pts), f"{[len(s) for s in R]}")
    c.check("pairs", all(len(s) == 2 for s in R[:-1]) and (not R or len(R[-1]) == 2 - n % 2))
    left = list(pts)
    for k, s in enumerate(R):
        left = [p for p in left if not any(p is x for x in s)] + ([s[1]] if len(s) == 2 else [])
        if len(s) == 2:
            d = c.abs(lst(s[1].point)[0] - lst(s[0].point)[0])
            for j, p in enumerate(left):
                c.le(f"nearest partner {k}.{j}", d, c.abs(lst(p.point)[0] - lst(s[0].point)[0]))
            left = [p for p in left if p is not s[1]]


def patch(c, curved=False):
    """the plane z = 0 parametrised by (u, v) -> (u + k v, v, 0)"""
    k = c.real("k", -1, 1)
    class Surf:
        def evaluate(self, uv):
            return c.array([uv[0] + k * uv[1], uv[1], c.num(0) * uv[0]])

        def derivative_u(self, uv):
            return c.array([c.num(1), c.num(0), c.num(0)])

        def derivative_v(self, uv):
            return c.array([k, c.num(1), c.num(0)])

        def derivatives(self, uv):
            return c.array([[c.num(1), c.num(0), c.num(0)], [k, c.num(1), c.num(0)]])

        def interval(self):
            return ((c.num(-9), c.num(9)), (c.num(-9), c.num(9)))

        def __call__(self, uv):
            a = lst(uv)
            return c.array([[x[0] + k * x[1], x[1], 0 * x[0]] for x in a]) if isinstance(a[0], list) else self.evaluate(uv)
    return Surf(), k


def line(c, d):
    o = [c.real(f"o{i}", -2, 2) for i in range(3)]
    class Crv:
        def evaluate(self, t):
            return c.array([a + b * t for a, b in zip(o, d)])

        def derivative(self, t):
            return c.array(d)

        def second_derivative(self, t):
            return c.array([c.num(0)] * 3)

        def interval(self):
            return (c.num(-9), c.num(9))
    return Crv(), o


def newton(c, exact_jac):
    S, k = patch(c)
    d = [c.num(1), c.num(2), c.num(2)]
    C, o = line(c, d)
    g = [c.real(f"g{i}", -2, 2) for i in range(3)]
    c.feasible()
    s = c.mod(CSX)
    f = lst(s.difference(C, S, c.array(g)))
    c.eqv("difference", f, [o[0] + g[0] - g[1] - k * g[2], o[1] + 2 * g[0] - g[2], o[2] + 2 * g[0]])
    J = lst((s._jac_cls if exact_jac else s.jacobian)(C, S, c.array(g), c.array([[c.num(0)] * 3 for _ in range(3)])))
    want = [[1, -1, -k], [2, 0, -1], [2, 0, 0]]
    for i in range(3):
        for j in range(3):
            c.eq(f"jacobian {i}{j}", J[i][j], want[i][j], "1e-4")
    if not exact_jac:
        return
    r = lst(s.closest_curve_surface_ppi(C, S, c.array(g)))
    t = -o[2] / 2
    v = o[1] + 2 * t
    c.eqv("intersection", r, [t, o[0] + t - k * v, v])


def wrapper(c, n):
    s = c.mod(CSX)
    kn = c.array([0.0, 0.0, 1.0, 1.0])
    S = c.mod(NB).NURBSSurface(c.array([[[c.num(i), c.num(j), c.num(0), c.num(1)] for j in range(2)] for i in range(2)]), (1, 1), kn, kn)
    C = curve(c, [[c.num(0)] * 3, [c.num(1)] * 3], 1, kn)
    T = [[c.real(f"{x}{i}", 0, 1) for x in "tuv"] for i in range(n)]
    c.feasible()
    tol, ptol = c.real("tol", c.q(1, 100), 1), c.real("ptol", c.q(1, 100), 1)
    seen = []

    def found(a, b, tol=None, ptol=None):
        seen.append((a, b, tol, ptol))
        return [("transversal", c.array([0.0, 0.0, 0.0]), tuple(t)) for t in T]
    with Patched(s, nurbs_csx=found):
        st, r = c.call(s.csx, C, S, tol, ptol)
    if not need(c, "returns", st == "ok", f"{r!r}"):
        return
    c.check("search", seen[0][0] is C and seen[0][1] is S)
    c.eqv("tolerances", [seen[0][2], seen[0][3]], [tol, ptol])
    R = lst(r)
    if not need(c, "every intersection", len(R) == n, f"{len(R)}"):
        return
    for i in range(n - 1):
        c.le(f"sorted {i}", R[i][0], R[i + 1][0])
    for i, t in enumerate(T):
        c.check(f"{i} reported", c.Or(*[c.And(*[a == b for a, b in zip(x, t)]) for x in R]))


def filtered(c):
    """intersections outside the domains are dropped"""
    s = c.mod(CSX)
    S, k = patch(c)
    C, o = line(c, [c.num(1), c.num(2), c.num(2)])
    T = [[c.real(f"{x}{i}", -2, 2) for x in "tuv"] for i in range(2)]
    c.feasible()
    tb, ub = (c.num(-1), c.num(1)), ((c.num(-1), c.num(0)), (c.num(0), c.num(1)))
    with Patched(s, find_intersections_bvh=lambda *a, **k: [c.array(t) for t in T]):
        st, r = c.call(s.curve_surface_intersection, C, S, 1e-6, tb, ub)
    if not need(c, "returns", st == "ok", f"{r!r}"):
        return
    R = lst(r)
    inside = [t for t in T if bool(c.And(t[0] >= -1, t[0] <= 1, t[1] >= -1, t[1] <= 0, t[2] >= 0, t[2] <= 1))]
    if need(c, "number", len(R) == len(inside), f"{len(R)} {len(inside)}"):
        for i, (a, b) in enumerate(zip(R, inside)):
            c.eqv(f"kept {i}", list(a), b)


def candidate(c, dup):
    """the recursion accepts what its minimiser returns exactly if it is a new intersection in the domains"""
    kn = [c.num(0), c.num(0), c.num(1), c.num(1)]
    x, y = c.real("x", -1, 2), c.real("y", -1, 2)
    P = [[x, y, c.num(-1)], [x, y, c.num(1)]]
    C = curve(c, P, 1, c.array(kn))
    S = c.mod(NB).NURBSSurface(c.array([[[c.num(i), c.num(j), c.num(0), c.num(1)] for j in range(2)] for i in range(2)]), (1, 1), c.array(kn), c.array(kn))
    m = c.mod(NCSX)
    it = m.NURBSCurveSurfaceIntersector(C, S, tolerance=0.125)
    r = [c.real(n, -1, 2) for n in "tuv"]
    inside = c.And(*[c.And(a >= 0, a <= 1) for a in r])
    d2 = (x - r[1]) * (x - r[1]) + (y - r[2]) * (y - r[2]) + (2 * r[0] - 1) * (2 * r[0] - 1)
    near = d2 <= c.q(1, 64)
    old = False
    if dup:
        e = [c.real(f"e{i}", -1, 2) for i in range(3)]
        it.intersections.append(("transversal", c.array(e), (0.5, 0.5, 0.5)))
        Z = [x, y, 2 * r[0] - 1]
        old = c.And(*[c.abs(a - b) < c.q(1, 8) for a, b in zip(e, Z)])
    c.off_ties(1, 10 ** 5)
    c.feasible()
    with Patched(m, newtons_method=lambda *a, **k: c.array(r)):
        st, g = c.call(it._find_new_intersection, C, S)
    if not need(c, "returns", st == "ok", f"{g!r}"):
        return
    ok = c.And(inside, near, c.Not(old)) if dup else c.And(inside, near)
    if g is None:
        c.check("refused only if outside, apart or known", c.Not(ok))
        return
    c.check("accepted only if inside, on both and new", ok)
    c.eqv("point", lst(g[0])[:3], [x, y, 2 * r[0] - 1])
    c.eqv("parameters", lst(g[1]), r)


def recursion(c, found):
    """the first call reports its intersection; the parts it goes on with cover curve x surface exactly once"""
    kn = [c.num(0), c.num(0), c.num(1), c.num(1)]
    x, y, h = [c.real(n, c.q(1, 8), c.q(7, 8)) for n in "xyh"]
    C = curve(c, [[x, y, -h], [x, y, 1 - h]], 1, c.array(kn))
    S = c.mod(NB).NURBSSurface(c.array([[[c.num(i), c.num(j), c.num(0), c.num(1)] for j in range(2)] for i in range(2)]), (1, 1), c.array(kn), c.array(kn))
    m = c.mod(NCSX)
    c.off_ties(1, 10 ** 4)
    c.feasible()
    parts = []

    def apart(self, cu, su):
        parts.append((cu, su))
        return len(parts) > 1
    it = m.NURBSCurveSurfaceIntersector(C, S, tolerance=1e-3, ptol=1e-7)
    with Patched(m, newtons_method=lambda *a, **k: c.array([h, x, y]) if found else None, spherical_separability=lambda *a, **k: False), \
            Patched(m.NURBSCurveSurfaceIntersector, _no_new_intersections=apart):
        st, g = c.call(it.intersect)
    if not need(c, "returns", st == "ok", f"{g!r}"):
        return
    if found:
        if need(c, "one intersection", len(g) == 1, f"{len(g)}"):
            c.check("kind", g[0][0] == "transversal", str(g[0][0]))
            c.eqv("point", lst(g[0][1])[:3], [x, y, 0])
            c.eqv("parameters", lst(g[0][2]), [h, x, y])
    else:
        c.check("no intersection", len(g) == 0)
    at = [h, x, y] if found else [c.q(1, 2)] * 3
    if not need(c, "number of parts", len(parts) == 9, f"{len(parts)}"):
        return
    todo = set(itertools.product((0, 1), repeat=3))
    for i, (cu, su) in enumerate(parts[1:]):
        I = [lst(cu.interval())] + [lst(z) for z in su.interval()]
        side = tuple(0 if bool(z[0] < a - c.q(1, 100)) else 1 for z, a in zip(I, at))
        todo.discard(side)
        c.eqv(f"part {i}", [w for z in I for w in z], [w for k, a in zip(side, at) for w in ((c.num(0), a) if k == 0 else (a, c.num(1)))], "1e-6")
        t, u, v = [(z[0] + z[1]) / 2 for z in I]
        c.eqv(f"part {i} of the curve", lst(cu.evaluate(t))[:3], [x, y, t - h], "1e-6")
        c.eqv(f"part {i} of the surface", lst(su.evaluate(c.array([u, v])))[:3], [u, v, 0], "1e-6")
    c.check("all parts", not todo, str(todo))


def validity(c):
    it = c.mod(NCSX).NURBSCurveSurfaceIntersector(None, None)
    p = [c.real(n, -3, 3) for n in "tuv"]
    B = [sorted_pair(c, n) for n in "abc"]
    c.feasible()
    g = bool(it._is_valid_parameter(p, *B))
    want = c.And(*[c.And(b[0] <= x, x <= b[1]) for x, b in zip(p, B)])
    c.check("inside", want if g else c.Not(want))


def sorted_pair(c, n):
    a = c.real(n + "0", -2, 2)
    return (a, a + c.real(n + "d", 0, 2))


def invert_curve(c):
    C, o = line(c, [c.num(1), c.num(2), c.num(2)])
    P = [c.real(f"p{i}", -2, 2) for i in range(3)]
    u0 = c.real("u0", -2, 2)
    c.feasible()
    r = c.mod(PI).point_inversion_curve(C, c.array(P), u0, 1e-6, 1e-6, 4)
    w = [a - b for a, b in zip(P, o)]
    t = (w[0] + 2 * w[1] + 2 * w[2]) / 9
    c.check("foot of the perpendicular", c.abs(c.num(r) - t) <= c.q(1, 10 ** 6), "line")


def invert_surface(c, many, on=False):
    S, k = patch(c)
    P = [c.real(f"p{i}", -2, 2) for i in range(3)]
    if on:
        P[2] = c.num(0)
    else:
        c.assume(c.Or(P[2] >= c.q(1, 8), P[2] <= -c.q(1, 8)))
    g = [c.real(f"g{i}", -2, 2) for i in range(2)]
    c.feasible()
    m = c.mod(PI)
    if many:
        Q = [P, [c.num(1), c.num(1), c.num(1)]]
        R = lst(m.points_inversion_surface(S, c.array(Q), g[0], g[1], 1e-6, 1e-6, 4))
    else:
        Q, R = [P], [lst(m.point_inversion_surface(S, c.array(P), g[0], g[1], 1e-6, 1e-6, 4))]
    for i, (r, p) in enumerate(zip(R, Q)):
        c.check(f"foot {i} u", c.abs(c.num(r[0]) - (p[0] - k * p[1])) <= c.q(1, 10 ** 5))
        c.check(f"foot {i} v", c.abs(c.num(r[1]) - p[1]) <= c.q(1, 10 ** 5))


def lin(c, nm, n, k=1):
    d = c.real(nm, -3, 3)
    f = lambda p: (sum_([a * x for a, x in zip(n, p)]) - d) / k
    return f, lambda p: c.array([c.num(a) / k for a in n]), d


def implicit_surface(c, what, k=1, num=False):
    m = c.mod(IP)
    n = [2, 3, 6]
    f, g, d = lin(c, "d", n, k)
    p = [c.real(f"p{i}", -3, 3) for i in range(3)]
    c.feasible()
    q = c.array(p if what.startswith("surface") else p[:2])
    if num:
        g = None
    t = (d - (2 * p[0] + 3 * p[1] + 6 * p[2])) / 49
    foot = [x + t * a for x, a in zip(p, n)]
    if what == "surface_point":
        c.eqv("foot", lst(m.surface_point(f, q, g)), foot, "1e-7")
    elif what == "curve_point":
        f2 = lambda x: (3 * x[0] + 4 * x[1] - d) / k
        t = (d - 3 * p[0] - 4 * p[1]) / 25
        c.eqv("foot", lst(m.curve_point(f2, q, grad=None if num else lambda x: c.array([c.num(3) / k, c.num(4) / k]))), [p[0] + 3 * t, p[1] + 4 * t], "1e-2")
    elif what == "curve_point2":
        f2 = lambda x: (3 * x[0] + 4 * x[1] - d) / k
        t = (d - 3 * p[0] - 4 * p[1]) / 25
        c.eqv("foot", lst(m._curve_point2(f2, q, grad=None if num else lambda x: c.array([c.num(3) / k, c.num(4) / k]))), [p[0] + 3 * t, p[1] + 4 * t], "1e-4")
    else:
        st, r = c.call(m.surface_plane, f, q, g)
        if not need(c, "returns", st == "ok", f"{r!r}"):
            return
        o, nv, a, b = [lst(x) for x in r]
        c.eq("origin on the surface", f(o), 0, "1e-3")
        c.eqv("normal", nv, [c.q(2, 7), c.q(3, 7), c.q(6, 7)])
        for i, (x, y, w) in enumerate(((nv, a, 0), (nv, b, 0), (a, b, 0), (a, a, 1), (b, b, 1))):
            c.eq(f"frame {i}", c.dot(x, y), w)
        c.eqv("right handed", c.cross(nv, a), b)
    c.eqv("the start is unchanged", lst(q), p if what.startswith("surface") else p[:2])


def implicit_curve(c, grads, no_err):
    m = c.mod(IP)
    f1, g1, d1 = lin(c, "d1", [1, 0, 2])
    f2, g2, d2 = lin(c, "d2", [0, 2, 1])
    p = [c.real(f"p{i}", -3, 3) for i in range(3)]
    c.feasible()
    st, r = c.call(m.intersection_curve_point, f1, f2, c.array(p), g1, g2, 1e-6, 100, grads, no_err)
    if not need(c, "returns", st == "ok", f"{r!r}"):
        return
    if no_err:
        if not need(c, "flag and result", len(r) == 2 and bool(r[0]) is True, f"{len(r)}"):
            return
        r = r[1]
    if grads:
        if not need(c, "point, values and gradients", len(r) == 5, f"{len(r)}"):
            return
        c.eqv("gradients", lst(r[3]) + lst(r[4]), [1, 0, 2, 0, 2, 1])
        r = r[0]
    x = lst(r)
    c.eq("on the first surface", f1(x), 0, "1e-5")
    c.eq("on the second surface", f2(x), 0, "1e-5")
    w = [a - b for a, b in zip(x, p)]
    c.eq("moves across the curve", c.dot(w, c.cross([1, 0, 2], [0, 2, 1])), 0, "1e-5")


def cases(tier):
    th = tier == "thorough"
    for k in range(1, 5):
        yield Case(f"interval in {k} pieces", pieces, (k,), mods=(RT,))
    for how in ("axis", "plane", "object"):
        for k in (1, 2) if th or how == "axis" else (1,):
            yield Case(f"polyline of {k} by {how}", pix, (k, how), mods=(CCX, DC, RT), time_s=200)
    yield Case("segment, uneven pieces", pix, (1, "coarse"), mods=(CCX, DC, RT), time_s=200)
    for how in ("axis", "ray", "plane", "implicit"):
        yield Case(f"{how} search", named, (how,), mods=(CCX, CSX))
    for a in "pi":
        for b in "pi":
            yield Case(f"dispatch {a}{b}", dispatch, (a, b), mods=(CCX,))
    yield Case("pair of segments", ppx, (True,), mods=(CCX, RT), time_s=200)
    for p, mult in (((1, 1), ((), ())), ((2, 1), ((1,), ())), ((1, 2), ((), (1,))), ((2, 2), ((), ()))) + ((((2, 2), ((1,), (1,))), ((3, 1), ((), (1,)))) if th else ()):
        for rat in (False, True):
            for way in "uv":
                yield Case(f"isocurve {p} {mult} {'rational' if rat else 'polynomial'} {way}", isocurve, (p, mult, rat, way, False), mods=(BI, NB), time_s=200)
            yield Case(f"edges {p} {mult} {'rational' if rat else 'polynomial'}", isocurve, (p, mult, rat, None, True), mods=(BI, NB), time_s=200)
    for way in "uv":
        yield Case(f"isocurve range {way}", isocurve_range, (way,), mods=(BI, NB))
    for e in range(4):
        for first in (True, False):
            yield Case(f"start parameters {e} {first}", start_params, (e, first), mods=(BI,))
    for w in ((), (2,), (1, 1), (0, 5), (6, 3)) + (((0, 4, 7),) if th else ()):
        yield Case(f"boundary intersections {w}", boundary, (w,), mods=(BI, NB))
    for n in range(0, 4 + th):
        yield Case(f"grouping {n}", grouped, (n,), mods=(BI,))
    for e in (True, False):
        yield Case(f"line and plane {'derivatives' if e else 'differences'}", newton, (e,), mods=(CSX,))
    for n in range(0, 4):
        yield Case(f"sorted intersections {n}", wrapper, (n,), mods=(CSX,))
    yield Case("intersections in the domain", filtered, (), mods=(CSX,))
    for d in (False, True):
        yield Case(f"candidate {'known' if d else 'fresh'}", candidate, (d,), mods=(NCSX, NB))
    for d in (False, True):
        yield Case(f"recursion {'at an intersection' if d else 'at the middle'}", recursion, (d,), mods=(NCSX, NB))
    yield Case("parameter ranges", validity, (), mods=(NCSX,))
    yield Case("inversion on a line", invert_curve, (), mods=(PI,))
    for many in (False, True):
        yield Case(f"inversion on a plane {many}", invert_surface, (many,), mods=(PI,))
    yield Case("inversion of a point of the plane", invert_surface, (False, True), mods=(PI,))
    for w in ("surface_point", "curve_point", "curve_point2", "surface_plane"):
        yield Case(f"implicit {w}", implicit_surface, (w,), mods=(IP,))
        if w != "surface_plane":
            yield Case(f"implicit {w} flat", implicit_surface, (w, 32), mods=(IP,))
            yield Case(f"implicit {w} differences", implicit_surface, (w, 1, True), mods=(IP,))
    for g in (True, False):
        for n in (True, False):
            yield Case(f"two implicit surfaces {g} {n}", implicit_curve, (g, n), mods=(IP,))
