from fractions import Fraction as Q
from common import *

BOUNDS = ("listed simple polygons of 3 to 8 integer corners, one of them moved along a picked line by a symbolic step (or with a symbolic corner); points anywhere in [-10, 10]^2; "
          "areas of up to 6 arbitrary points; hulls of up to 6 points, one of them arbitrary in [-6, 6]^2")
OUTSIDE = ("polygons that touch each other in a corner or along an edge (left open by the algorithm), results with holes, points within 1e-5 of an edge; "
           "comparisons decided by less than 1e-6 (scaled); the operators | - + of Polygon beyond copying; PolygonCollection._union; triangulation (earcut is an external library); rounding")

PG = "mmcore.geom.polygon"

# corners in order and a triangulation by corner numbers
POLYS = {
    "triangle": (((0, 0), (5, 1), (2, 4)), ((0, 1, 2),)),
    "square": (((0, 0), (4, 0), (4, 4), (0, 4)), ((0, 1, 2), (0, 2, 3))),
    "diamond": (((-3, 0), (0, -3), (3, 0), (0, 3)), ((0, 1, 2), (0, 2, 3))),
    "ell": (((0, 0), (5, 0), (5, 2), (2, 2), (2, 5), (0, 5)), ((0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5))),
    "arrow": (((-4, -3), (1, 0), (-3, 4), (5, 0)), ((0, 1, 3), (1, 2, 3))),
    "comb": (((0, 0), (6, 0), (6, 3), (5, 1), (3, 4), (1, 1), (0, 3)), ((0, 1, 3), (1, 2, 3), (0, 3, 5), (3, 4, 5), (0, 5, 6))),
    "small": (((0, 0), (1, 0), (0, 1)), ((0, 1, 2),)),
    "clockwise": (((0, 0), (0, 3), (3, 3), (3, 0)), ((0, 1, 2), (0, 2, 3))),
}


def real(c):
    """replaying on the compiled code: assumptions met exactly by the solver's model are met up to rounding"""
    return type(c).__name__ != "Ctx"


def cross2(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def signed(pts):
    s = 0
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        s = s + a[0] * b[1] - a[1] * b[0]
    return s / 2


def off_boundary(c, pts, p, eps=(1, 10 ** 5)):
    e = c.q(*eps)
    if real(c):
        e = e * 0.99
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        x = cross2(a, b, p)
        d = (b[0] - a[0]) * (p[0] - a[0]) + (b[1] - a[1]) * (p[1] - a[1])
        L = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1])
        c.assume(c.Or(x >= e, x <= -e, d <= -e, d - L >= e))


def in_triangles(c, pts, tris, p):
    out = []
    z = -1e-10 if real(c) else 0
    for t in tris:
        a, b, d = [pts[i] for i in t]
        if bool(cross2(a, b, d) < 0):
            b, d = d, b
        out.append(c.And(cross2(a, b, p) >= z, cross2(b, d, p) >= z, cross2(d, a, p) >= z))
    return c.Or(*out) if len(out) > 1 else out[0]


def corners(c, name, move=None):
    pts, tris = POLYS[name]
    if move is None:
        return [[c.num(x) for x in p] for p in pts], tris
    o, d, s = move
    return [[c.num(x) + u + v * s for x, u, v in zip(p, o, d)] for p in pts], tris


def inside(c, name, how, free):
    m = c.mod(PG)
    pts, tris = corners(c, name)
    if free is not None:
        k, d = free
        s = c.real("s", 0, 1)
        pts[k] = [x + s * y for x, y in zip(pts[k], d)]
    p = [c.real("x", -10, 10), c.real("y", -10, 10)]
    off_boundary(c, pts, p)
    c.feasible()
    P = [tuple(q) for q in pts]
    if how == "ray":
        st, r = c.call(m.is_point_in_polygon, tuple(p), P)
    elif how == "closed":
        st, r = c.call(m.is_point_in_polygon, tuple(p), P + P[:1])
    elif how == "tree":
        st, r = c.call(m.is_point_in_polygon_bvh, P, tuple(p))
    else:
        st, r = c.call(m.point_in_polygon, c.array(pts + (pts[:1] if how == "segments closed" else [])), c.array(p))
    if st != "ok":
        c.fail("point in polygon", f"{type(r).__name__} {r}")
        return
    want = in_triangles(c, pts, tris, p)
    c.check("point reported inside is inside" if bool(r) else "point reported outside is outside", want if bool(r) else c.Not(want))


def area(c, n):
    m = c.mod(PG)
    pts = [[c.real(f"x{i}", -8, 8), c.real(f"y{i}", -8, 8)] for i in range(n)]
    a = c.array(pts)
    st, r = c.call(lambda: m.polygon_area(m.to_polygon_area(a)))
    if st != "ok":
        c.fail("area", f"{type(r).__name__} {r}")
        return
    c.eq("area", r, abs(signed(pts)))
    k = c.pick("start", n)
    q = pts[k:] + pts[:k]
    if c.pick("reversed", 2):
        q = q[::-1]
    dx = c.real("dx", -8, 8)
    c.eq("area of the polygon moved, restarted or reversed", m.polygon_area(m.to_polygon_area(c.array([[x + dx, y - dx] for x, y in q]))), r)
    closed = q + q[:1]
    c.eq("area, closed", m.polygon_area([tuple(p) for p in closed]), r)
    c.eqv("argument", [x for p in lst(a) for x in p], [x for p in pts for x in p])
    P = m.Polygon(pts)
    c.eq("area of a Polygon", P.area, r)
    c.check("corners", len(P.points) == n)
    c.eqv("points", [x for p in P.points for x in p], [x for p in pts for x in p])


# ---- clipping

MOVES = (((0, 0), (1, 0)), ((1, -2), (1, 1)), ((-2, 1), (-1, 3)), ((-1, -1), (2, -1)))


def meet(c, A, B):
    """area of the common part of two convex polygons (any orientation)"""
    if bool(signed(B) < 0):
        B = B[::-1]
    out = A
    for i in range(len(B)):
        a, b = B[i - 1], B[i]
        src, out = out, []
        if not src:
            return 0
        ins = [bool(cross2(a, b, p) >= 0) for p in src]
        for j in range(len(src)):
            p, q = src[j - 1], src[j]
            if ins[j - 1] != ins[j]:
                u, v = cross2(a, b, p), cross2(a, b, q)
                t = u / (u - v)
                out.append([x + t * (y - x) for x, y in zip(p, q)])
            if ins[j]:
                out.append(q)
    return abs(signed(out)) if len(out) > 2 else 0


def common_area(c, A, ta, B, tb):
    s = 0
    for t in ta:
        for u in tb:
            s = s + meet(c, [A[i] for i in t], [B[i] for i in u])
    return s


def general(c, A, B):
    """no corner of one on the boundary of the other"""
    for X, Y in ((A, B), (B, A)):
        for p in X:
            off_boundary(c, Y, p, (1, 1000))


def pair(c, na, nb, mv):
    A, ta = corners(c, na)
    o, d = MOVES[mv]
    s = c.real("s", -6, 6)
    B, tb = corners(c, nb, (o, d, s))
    general(c, A, B)
    c.off_ties(1, 10 ** 6)
    c.feasible()
    return A, ta, B, tb


def window(c, na, nb, mv):
    """clip(): the subject inside a convex counter-clockwise window"""
    m = c.mod(PG)
    A, ta, B, tb = pair(c, na, nb, mv)
    a, b = [list(p) for p in A], [list(p) for p in B]
    st, r = c.call(m.clip, a, b)
    if st != "ok":
        c.fail("clip", f"{type(r).__name__} {r}")
        return
    R = [lst(p) for p in r]
    c.eq("area of the clipped polygon", abs(signed(R)) if R else c.num(0), c.num(0) + common_area(c, A, ta, B, tb))
    c.eqv("arguments", [x for p in a + b for x in p], [x for p in A + B for x in p])


def boolean(c, na, nb, mv, op):
    m = c.mod(PG)
    A, ta, B, tb = pair(c, na, nb, mv)
    P, R = m.Polygon(A), m.Polygon(B)
    both = c.num(0) + common_area(c, A, ta, B, tb)
    sa, sb = abs(signed(A)), abs(signed(B))
    if op == "difference":
        # a result with a hole cannot be told by a list of outlines
        c.assume(c.Or(both <= sb - c.q(1, 1000), both >= sa - c.q(1, 1000)))
        c.feasible()
    st, r = c.call(getattr(P, op), R)
    if st != "ok":
        c.fail(op, f"{type(r).__name__} {r}")
        return
    c.check("list of polygons", isinstance(r, list) and all(isinstance(x, m.Polygon) for x in r))
    tot = c.num(0)
    for x in r:
        tot = tot + x.area
    want = both if op == "intersection" else sa + sb - both if op == "union" else sa - both
    c.eq("area of the " + op, tot, want)


def helper(c, op):
    """clip_polygon"""
    m = c.mod(PG)
    A, ta, B, tb = pair(c, "triangle", "square", 1)
    both = c.num(0) + common_area(c, A, ta, B, tb)
    sa, sb = abs(signed(A)), abs(signed(B))
    c.assume(both >= c.q(1, 1000))
    c.assume(both <= sa - c.q(1, 1000))
    c.assume(both <= sb - c.q(1, 1000))
    c.feasible()
    st, r = c.call(m.clip_polygon, A, B, op)
    if st != "ok":
        c.fail(op, f"{type(r).__name__} {r}")
        return
    tot = c.num(0)
    for x in r:
        tot = tot + x.area
    c.eq(op, tot, {"intersection": both, "union": sa + sb - both, "difference": sa - both, "reversed-diff": sb - both}[op])


def refine(c, k):
    """superfluous corners on straight edges"""
    m = c.mod(PG)
    pts, _ = corners(c, "ell")
    s = c.real("s", c.q(1, 8), c.q(7, 8))
    a, b = pts[k], pts[(k + 1) % len(pts)]
    q = [x + s * (y - x) for x, y in zip(a, b)]
    P = m.Polygon(pts[:k + 1] + [q] + pts[k + 1:])
    before = P.area
    st, r = c.call(P.refine)
    if st != "ok":
        c.fail("refine", f"{type(r).__name__} {r}")
        return
    c.eq("area kept", P.area, before)
    got = P.points
    c.check("superfluous corner removed", len(got) == len(pts))
    if len(got) == len(pts):
        c.eqv("corners", [x for p in got for x in p], [x for p in pts for x in p])


HULLS = (((0, 0), (5, 1), (2, 4)), ((0, 0), (4, 0), (4, 4), (0, 4), (2, 2)), ((-3, 1), (1, -4), (3, 3), (-2, -2), (0, 0)), ((0, 0), (2, 0), (4, 0), (4, 3)), ((1, 1),), ((0, 0), (3, 1)))


def hull(c, k, at):
    m = c.mod(PG)
    pts = [[c.num(x) for x in p] for p in HULLS[k]]
    p = [c.real("x", -6, 6), c.real("y", -6, 6)]
    pts.insert(min(at, len(pts)), p)
    c.off_ties(1, 10 ** 6)
    c.feasible()
    a = c.array(pts)
    st, r = c.call(m.convex_hull2d, a)
    if st != "ok":
        c.fail("hull", f"{type(r).__name__} {r}")
        return
    H = [lst(q) for q in lst(r)]
    c.check("some corners", 1 <= len(H) <= len(pts))
    for q in H:
        c.check("corners are given points", c.Or(*[c.And(q[0] == o[0], q[1] == o[1]) for o in pts]))
    if len(H) > 2:
        for i in range(len(H)):
            c.check("turns left", cross2(H[i - 2], H[i - 1], H[i]) > 0)
            for o in pts:
                c.check("all points within", cross2(H[i - 1], H[i], o) >= -c.q(1, 10 ** 8))
    c.eqv("argument", [x for q in lst(a) for x in q], [x for q in pts for x in q])


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for name in POLYS:
        for how in ("ray", "closed", "tree", "segments", "segments closed"):
            out.append(Case(f"inside {name} {how}", inside, (name, how, None), mods=(PG,), time_s=200))
    for how in ("ray", "tree", "segments"):
        out.append(Case(f"inside moving {how}", inside, ("arrow", how, (1, (2, 0))), mods=(PG,), time_s=300))
    for n in (3, 4, 5) + ((6,) if thorough else ()):
        out.append(Case(f"area {n}", area, (n,), mods=(PG,), time_s=300))
    conv = ("triangle", "square", "diamond")
    for i, (a, b) in enumerate([(x, y) for x in ("triangle", "diamond", "ell", "comb", "clockwise") for y in conv if x != y]):
        for mv in range(len(MOVES)) if thorough else (i % len(MOVES),):
            out.append(Case(f"window {a} {b} {mv}", window, (a, b, mv), mods=(PG,), time_s=300))
    prs = (("triangle", "square"), ("square", "diamond"), ("ell", "triangle"), ("arrow", "square"), ("square", "small"), ("clockwise", "triangle"), ("small", "ell"))
    for i, (a, b) in enumerate(prs):
        for op in ("intersection", "union", "difference"):
            for mv in range(len(MOVES)) if thorough else (i % len(MOVES), (i + 2) % len(MOVES)):
                out.append(Case(f"{op} {a} {b} {mv}", boolean, (a, b, mv, op), mods=(PG,), time_s=300))
    for op in ("intersection", "union", "difference", "reversed-diff"):
        out.append(Case(f"clip_polygon {op}", helper, (op,), mods=(PG,), time_s=300))
    for k in range(6):
        out.append(Case(f"refine {k}", refine, (k,), mods=(PG,), time_s=200))
    for k in range(len(HULLS)):
        for at in (0, 9):
            out.append(Case(f"hull {k} {at}", hull, (k, at), mods=(PG,), time_s=300))
    return out


# ---- closed curves

PIC = "mmcore.numeric.algorithms.point_in_curve"


class Outline:
    """a closed curve through given corners, one unit of parameter per edge (no degree, no knots)"""

    def __init__(self, c, pts):
        self.c, self.p = c, pts

    def interval(self):
        return (0.0, float(len(self.p)))

    def evaluate(self, t):
        n = len(self.p)
        k = next((k for k in range(n) if bool(t < k + 1)), n - 1)
        a, b = self.p[k], self.p[(k + 1) % n]
        return self.c.array([x + (t - k) * (y - x) for x, y in zip(a, b)] + [self.c.num(0)])

    def evaluate_multi(self, ts):
        return self.c.array([lst(self.evaluate(t)) for t in lst(ts)])


def in_curve(c, name, kind):
    m = c.mod(PIC)
    pts, tris = corners(c, name)
    p = [c.real("x", -10, 10), c.real("y", -10, 10)]
    off_boundary(c, pts, p)
    e = c.q(1, 1000) * (0.99 if real(c) else 1)
    for q in pts:
        c.assume(c.Or(p[0] - q[0] >= e, p[0] - q[0] <= -e))
    c.feasible()
    if kind == "polyline":
        K = c.mod(NURBS).NURBSCurve
        crv = K(c.array([q + [c.num(0)] for q in pts + pts[:1]]), 1)
        st, r = c.call(m.point_in_curve, crv, c.array(p + [c.num(0)]))
    elif kind == "open":
        K = c.mod(NURBS).NURBSCurve
        crv = K(c.array([q + [c.num(0)] for q in pts]), 1)
        st, r = c.call(m.point_in_curve, crv, c.array(p + [c.num(0)]))
        c.check("nothing is inside an open curve", st == "ok" and not bool(r))
        return
    else:
        crv = Outline(c, pts)
        n = len(pts)

        def crossings(curve, xyz, axis=1, step=0.5):
            out = []
            for k in range(n):
                a, b = pts[k][axis], pts[(k + 1) % n][axis]
                if bool(a == b):
                    continue
                t = (xyz[axis] - a) / (b - a)
                if bool(t > 0) and bool(t < 1):
                    out.append(k + t)
            return out
        keep = m.curve_x_ray
        m.curve_x_ray = crossings
        try:
            st, r = c.call(m.point_in_curve, crv, c.array(p + [c.num(0)]))
        finally:
            m.curve_x_ray = keep
    if st != "ok":
        c.fail("point in curve", f"{type(r).__name__} {r}")
        return
    want = in_triangles(c, pts, tris, p)
    c.check("point reported inside is inside" if bool(r) else "point reported outside is outside", want if bool(r) else c.Not(want))


_cases = cases


def cases(tier):
    out = _cases(tier)
    for name in ("triangle", "ell", "arrow", "comb", "clockwise"):
        for kind in ("polyline", "curve"):
            out.append(Case(f"{kind} {name}", in_curve, (name, kind), mods=(PIC, NURBS), time_s=200))
    out.append(Case("open curve", in_curve, ("square", "open"), mods=(PIC, NURBS), time_s=200))
    return out
