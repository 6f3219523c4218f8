from fractions import Fraction as Q
from itertools import combinations
from common import *

BOUNDS = "collision: listed pairs of small polytopes (2 to 8 vertices, integer coordinates), one of them moved by a symbolic translation in [-8, 8] along a picked line (thorough: any translation); triangles and segments: listed integer triangles against every segment in [-8, 8]^3"
OUTSIDE = "overlaps and gaps thinner than 1e-4; translations for which a comparison made by the test is decided by less than 1e-6 (scaled): there the tolerance 1e-8 of the test can keep it from finishing; rounding; larger polytopes; triangle-segment tests whose determinant is within 1e-6 of zero; the parallel build of the triangle test (OpenMP is not enabled here)"

GJK, MOL = "mmcore.numeric.algorithms.cygjk", "mmcore.numeric.algorithms.moller"

TET = ((0, 0, 0), (3, 0, 0), (0, 3, 0), (0, 0, 3))
TET2 = ((1, 1, 4), (4, 2, 0), (-1, 3, 1), (0, -2, -1))
BOX = tuple((x, y, z) for x in (0, 2) for y in (0, 3) for z in (0, 1))
TRI = ((0, 0, 0), (4, 1, 0), (1, 3, 2))
SEG = ((0, 0, 0), (1, 2, 5))
SEG2 = ((-1, 3, 0), (3, -1, 1))
PYR = ((-2, -1, 0), (2, -1, 0), (2, 2, 0), (-2, 2, 0), (0, 1, 4))
OCT = ((3, 0, 0), (-3, 0, 0), (0, 3, 0), (0, -3, 0), (0, 0, 3), (0, 0, -3))
SHAPES = dict(TET=TET, TET2=TET2, BOX=BOX, TRI=TRI, SEG=SEG, SEG2=SEG2, PYR=PYR, OCT=OCT)
LINES = (((1, 0, 0), (0, 0, 0)), ((1, 2, -1), (1, 0, 1)), ((-2, 3, 5), (0, 1, -1)), ((0, 1, 3), (1, -1, 0)), ((3, -1, 1), (0, -1, 2)),
         ((-1, -1, 2), (2, 1, 0)), ((0, -1, 0), (1, 1, -2)), ((2, 1, 1), (-1, 0, -1)), ((1, -3, -2), (1, 1, 1)), ((0, 0, 1), (-1, 2, 0)),
         ((5, 1, -2), (0, 2, 1)), ((-1, 4, 1), (1, 0, -2)))


def facets(pts):
    """the half-spaces n.x <= h of the convex hull of integer points (exact; the hull must be solid)"""
    out = {}
    for a, b, c_ in combinations(pts, 3):
        u, v = [b[i] - a[i] for i in range(3)], [c_[i] - a[i] for i in range(3)]
        n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        if not any(n):
            continue
        for s in (1, -1):
            m = tuple(s * x for x in n)
            h = sum(x * y for x, y in zip(m, a))
            if all(sum(x * y for x, y in zip(m, p)) <= h for p in pts):
                k = max(map(abs, m))
                out[tuple(Q(x, k) for x in m)] = Q(h, k)
    return list(out.items())


def gjk(c, A, B, line):
    m = c.mod(GJK)
    a, b = SHAPES[A], SHAPES[B]
    if line is None:
        t = [c.real(f"t{i}", -8, 8) for i in range(3)]
    else:
        s = c.real("t", -8, 8)
        t = [s * d + o for d, o in zip(*LINES[line])]
    moved = [[x + y for x, y in zip(p, t)] for p in b]
    v1, v2 = c.array([[c.num(x) for x in p] for p in a]), c.array(moved)
    c.feasible()
    c.off_ties(1, 10 ** 6)
    st, r = c.call(m.gjk, v1, v2, 1e-8, 25)
    if st != "ok":
        c.fail("gjk", str(r))
        return
    r = bool(r)
    # the hull of a - b(moved) = (a - b) - t
    diff = sorted({tuple(x - y for x, y in zip(p, q)) for p in a for q in b})
    eps = c.q(1, 10000)
    inside = []
    for n, h in facets(diff):
        slack = c.num(0) + c.q(h.numerator, h.denominator)
        for i in range(3):
            slack = slack - c.q(n[i].numerator, n[i].denominator) * t[i]
        # the origin is in (a - b) - t  <=>  t is in a - b
        inside.append(slack)
    if r:
        for i, s in enumerate(inside):
            c.check("reported a collision", s >= -eps, f"face {i}")
    else:
        c.check("reported no collision", c.Or(*[s <= eps for s in inside]))
    c.eqv("first vertices", [x for p in lst(v1) for x in p], [x for p in a for x in p])
    c.eqv("second vertices", [x for p in lst(v2) for x in p], [x for p in moved for x in p])


TRIS = (((0, 0, 0), (4, 0, 0), (0, 4, 0)), ((1, -2, 3), (3, 1, -1), (-2, 2, 1)), ((0, 0, -2), (0, 3, 1), (0, -3, 2)))


def crossing(c, T, S, E):
    """(n.dir, u, v, t): where the line through S and E meets the plane of the triangle"""
    a, b, d = [[c.num(x) for x in p] for p in T]
    e1, e2 = c.sub(b, a), c.sub(d, a)
    D = c.sub(E, S)
    n = c.cross(e1, e2)
    det = -c.dot(D, n)
    t = -c.dot(c.sub(a, S), n) / det
    P = [s + t * x for s, x in zip(S, D)]
    w = c.sub(P, a)
    g = c.dot(n, n)
    return det, c.dot(c.cross(w, e2), n) / g, c.dot(c.cross(e1, w), n) / g, t, P


def triangle(c, k, where):
    m = c.mod(MOL)
    T = TRIS[k]
    if where == "any":
        S, E = [c.real(f"s{i}", -8, 8) for i in range(3)], [c.real(f"e{i}", -8, 8) for i in range(3)]
    else:
        S, E = [c.num(x) for x in where], [c.real(f"e{i}", -8, 8) for i in range(3)]
    a, b, d = [[c.num(x) for x in p] for p in T]
    n = c.cross(c.sub(b, a), c.sub(d, a))
    det = -c.dot(c.sub(E, S), n)
    lim = c.q(1, 10 ** 6 if type(c).__name__ == "Ctx" else 2 * 10 ** 6)
    c.assume(c.Or(det >= lim, det <= -lim))
    c.feasible()
    out = c.array([c.num(7)] * 3)
    args = [c.array(x) for x in (a, b, d, S, E)]
    st, r = c.call(m.intersect_triangle_segment, *args, out)
    if st != "ok":
        c.fail("triangle", str(r))
        return
    det, u, v, t, P = crossing(c, T, S, E)
    tol = c.q(2, 10 ** 8)
    if bool(r):
        got = lst(out)
        c.eqv("point of the crossing", got, P)
        for nm, x in (("in the triangle (u)", u), ("in the triangle (v)", v), ("in the triangle (w)", 1 - u - v),
                      ("on the segment, not before its start", t), ("on the segment, not past its end", 1 - t)):
            c.check(nm, x >= -tol)
    else:
        c.check("nothing written on a miss", all(bool(x == 7) for x in lst(out)))
        c.check("no miss of a crossing", c.Or(u <= tol, v <= tol, 1 - u - v <= tol, t <= tol, 1 - t <= tol))


def triangles(c, where, func):
    """several triangles at once: row by row the answers of the single test"""
    m = c.mod(MOL)
    f = c.np.float64
    s = c.real("s", -8, 8)
    o, d, E = where
    S = [c.num(x) + s * y for x, y in zip(o, d)]
    E = [c.num(x) for x in E]
    c.off_ties(1, 10 ** 6)
    c.feasible()
    cols = [c.array([[c.num(x) for x in T[i]] for T in TRIS]) for i in range(3)]
    Sa, Ea = c.array(S), c.array(E)
    hits = []
    for T in TRIS:
        out = c.array([c.num(7)] * 3)
        r = m.intersect_triangle_segment(*[c.array([c.num(x) for x in p]) for p in T], Sa, Ea, out)
        hits.append(lst(out) if bool(r) else None)
    if func == "one":
        out = c.array([c.num(7)] * 3)
        st, r = c.call(m.intersect_triangles_segment_one, *cols, Sa, Ea, out)
        if st != "ok":
            c.fail("triangles", str(r))
            return
        pt, flag = r
        if not bool(flag):
            c.check("no hit reported only when no triangle is hit", pt is None and all(h is None for h in hits))
        else:
            first = next((h for h in hits if h is not None), None)
            c.check("a hit reported only when a triangle is hit", first is not None)
            if first is not None:
                c.check("one of the hits", c.Or(*[c.And(*[abs(x - y) <= c.q(1, 10 ** 9) for x, y in zip(lst(pt), h)]) for h in hits if h is not None]))
        return
    outs = c.array([[c.num(7)] * 3 for _ in TRIS])
    flags = c.np.zeros(len(TRIS), dtype=c.np.intc)
    flags[:] = 9
    st, r = c.call(getattr(m, func), *cols, Sa, Ea, outs, flags)
    if st != "ok":
        c.fail("triangles", str(r))
        return
    for i, h in enumerate(hits):
        fl = int(flags[i])
        c.check("flag", fl in ((0,) if h is None else (1, 2, 3)), f"triangle {i}")
        c.eqv("point", lst(outs[i]), [c.num(7)] * 3 if h is None else h, detail=f"triangle {i}") if False else c.eqv(f"point {i}", lst(outs[i]), [c.num(7)] * 3 if h is None else h)
        if h is None:
            continue
        corners = [[c.num(x) for x in p] for p in TRIS[i]]
        near = lambda p: c.And(*[abs(x - y) <= c.q(2, 10 ** 8) for x, y in zip(h, p)])
        if fl == 2:
            c.check("flag 2: at a corner", c.Or(*[near(p) for p in corners]))
        if fl == 3:
            c.check("flag 3: on an edge", c.Or(*[c.And(*[abs(x) <= c.q(2, 10 ** 8) for x in c.cross(c.sub(h, p), c.sub(q, p))])
                                                  for p, q in zip(corners, corners[1:] + corners[:1])]))
        if fl == 1:
            for p, q in zip(corners, corners[1:] + corners[:1]):
                c.check("flag 1: off the edges", c.Or(*[abs(x) > c.q(1, 10 ** 9) for x in c.cross(c.sub(h, p), c.sub(q, p))]))


# ---- sweep line

SWEEP = "mmcore.numeric.algorithms.sweep_line.sweep_intersector"
SKIP = "mmcore.numeric.algorithms.sweep_line.skiplist"


class Coin:
    """stands for the random module in the skip list: heads and tails in a fixed pattern"""

    def __init__(self, pattern):
        self.p, self.i = pattern, 0

    def randint(self, a, b):
        self.i += 1
        return 1 if self.p[self.i % len(self.p)] == "1" else 2


SCENES = {
    # segments of numbers; a name is a symbolic coordinate in [-6, 6]; (i, name) a point of segment i at parameter name in [1/8, 7/8]
    "two": ((((-5, -3), (4, 2))), ((-1, 4), ("x", "y"))),
    "two down": (((-5, 3), (4, -2)), ((3, 5), ("x", "y"))),
    "vertical": (((1, -5), (1, 5)), ((-4, "y"), (5, 2))),
    "horizontal": (((-4, 1), (5, 1)), ((0, 4), ("x", -3))),
    "touching": (((-5, -3), (4, 2)), ((0, "a"), (2, 5))),
    "touching from the left": (((-5, -3), (4, 2)), ((-4, 5), (0, "a"))),
    "corner": (((-5, -3), (2, 1)), ((2, 1), ("x", "y"))),
    "three": (((-5, -3), (5, 2)), ((-4, 3), (5, -4)), ((-2, -6), ("x", 5))),
    "three b": (((-5, -3), (5, 2)), ((-4, 3), (5, -4)), ((-6, "y"), (6, 1))),
    "star": (((-5, -3), (5, 2)), ((0, "a"), (4, -5)), ((-3, 5), (0, "a")), ((0, "a"), (3, 5))),
    "two open": (((-5, "u"), (4, 2)), ((-1, 4), ("x", "y"))),
    "chain": (((-5, -3), (-1, 4)), ((-1, 4), (2, -4)), ((2, -4), (5, 3)), ((-6, "y"), (6, 1))),
    "bundle": (((-5, -3), (5, 3)), ((-5, 3), (5, -3)), ((-4, -5), ("x", 5)), ((0, "y"), (5, 0))),
    "tee twice": (((-5, -3), (4, 2)), ((0, "a"), (2, 5)), ((0, "a"), (-1, -6))),
    "upright cross": (((1, -5), (1, 5)), ((-5, 2), (5, 2)), (("x", -5), (4, 5))),
    "triangle": (((-4, -3), (5, -2)), ((5, -2), ("x", 4)), (("x", 4), (-4, -3))),
    "triangle cut": (((-4, -3), (5, -2)), ((5, -2), (1, 4)), ((1, 4), (-4, -3)), ((-6, "y"), (6, 1))),
}


def sweep(c, scene, coins):
    m = c.mod(SWEEP)
    sk = c.mod(SKIP)
    S = []
    known = {}

    def val(x):
        if isinstance(x, str):
            if x not in known:
                known[x] = c.real(x, c.q(1, 8), c.q(7, 8)) if x == "a" else c.real(x, -6, 6)
            return known[x]
        return c.num(x)

    pts = {}
    for seg in SCENES[scene]:
        ends = []
        for p in seg:
            if p not in pts:
                if p[1] == "a":
                    a, b = S[p[0]]
                    t = val("a")
                    pts[p] = tuple(x + t * (y - x) for x, y in zip(a, b))
                else:
                    pts[p] = tuple(val(x) for x in p)
            ends.append(pts[p])
        S.append(tuple(ends))
    c.off_ties(1, 10 ** 6)
    c.feasible()
    # the reference: pairwise crossings, found with the same rules on every pair
    want = []
    for i, s in enumerate(S):
        r = c.sub(s[1], s[0])
        mine = []
        for j, o in enumerate(S):
            if i == j:
                continue
            q = c.sub(o[1], o[0])
            den = r[0] * q[1] - r[1] * q[0]
            if bool(den == 0):
                continue
            w = c.sub(o[0], s[0])
            u, v = (w[0] * q[1] - w[1] * q[0]) / den, (w[0] * r[1] - w[1] * r[0]) / den
            if bool(u > 0) and bool(u < 1) and bool(v >= 0) and bool(v <= 1):
                if not any(bool(x == u) for x in mine):
                    k = next((k for k, x in enumerate(mine) if bool(u < x)), len(mine))
                    mine.insert(k, u)
        want.append([[a + u * d for a, d in zip(s[0], r)] for u in mine])
    keep, gen = sk.random, sk.SkipList.distribution
    sk.random = Coin(coins)
    sk.SkipList.distribution = sk.geometric(0.5)
    try:
        st, res = c.call(m.find_intersection, tuple(S))
    finally:
        sk.random, sk.SkipList.distribution = keep, gen
    if st != "ok":
        c.fail("find_intersection", f"{type(res).__name__} {res}")
        return
    got = []
    for s in S:
        k = [v for kk, v in res.items() if kk is s]
        got.append([list(p) for p in k[0]] if k else [])
    c.check("only the given segments are reported", all(any(kk is s for s in S) for kk in res))
    for i, (g, w) in enumerate(zip(got, want)):
        c.check("number of crossings", len(g) == len(w), f"segment {i}: {len(g)} instead of {len(w)}")
        if len(g) == len(w):
            for a, b in zip(g, w):
                c.eqv(f"crossing of segment {i}", a, b)


def cases(tier):
    thorough = tier == "thorough"
    for A, B in (("TET", "TET2"), ("TRI", "SEG"), ("TET", "SEG"), ("BOX", "SEG2"), ("PYR", "TRI"), ("BOX", "TET2"), ("OCT", "TET"), ("OCT", "PYR"), ("SEG2", "BOX")) + ((("BOX", "BOX"), ("BOX", "OCT"), ("OCT", "OCT"), ("PYR", "TET2")) if thorough else ()):
        for line in range(len(LINES) if thorough else 6):
            yield Case(f"gjk {A} {B} line {line}", gjk, (A, B, line), mods=(GJK,), time_s=200, paths=3000)
    for k in range(len(TRIS)):
        for w in ((3, 1, 5), (-1, 0, -6), "any"):
            yield Case(f"triangle {k} from {w}", triangle, (k, w), mods=(MOL,), time_s=600 if w == "any" else 200)
    for f in ("one", "intersect_triangles_segment", "intersect_triangles_segment_parallel"):
        for i, w in enumerate((((0, 0, 4), (1, 0, 0), (1, 1, -4)), ((3, -1, 3), (0, 1, 0), (-2, 1, -2)), ((5, 0, 0), (0, 1, 0), (-5, 0, 0)))):
            yield Case(f"triangles {f.replace('intersect_triangles_', '')} {i}", triangles, (w, f), mods=(MOL,), time_s=200)
    for name in SCENES:
        if name == "two open" and not thorough:
            continue
        for coins in ("2", "12") + (("1122", "112", "12211") if thorough else ()):
            yield Case(f"sweep {name} {coins}", sweep, (name, coins), mods=(SWEEP, SKIP), time_s=300)
