from common import *

AABB, AABBPY, BVH = "mmcore.numeric._aabb", "mmcore.numeric.aabb", "mmcore.geom.bvh"
BOUNDS = ("boxes, points, segments and rays with every coordinate symbolic in [-8,8] (2 and 3 dimensions, point sets of up to 4 points and up to 4 columns); segment and ray "
          "directions exactly zero or at least 1/64 per axis; curves and surfaces of degree 1-2 with up to 4 control points per direction, weights in [1/4,4]")
OUTSIDE = "curve_aabb (an iterative search), directions between 0 and 1/64, infinite boxes, rounding"


def box(c, nm, d=3, full=None):
    """a box with min <= max; the axes not in full are fixed"""
    lo, hi = [], []
    for i in range(d):
        if full is None or i in full:
            a, b = c.real(f"{nm}lo{i}", -8, 8), c.real(f"{nm}hi{i}", -8, 8)
            c.assume(a <= b)
        else:
            a, b = c.num(-1), c.num(2)
        lo.append(a)
        hi.append(b)
    return lo, hi


def inside(c, B, x):
    return c.And(*[c.And(B[0][i] <= x[i], x[i] <= B[1][i]) for i in range(len(x))])


def meet(c, A, B):
    return c.And(*[c.And(A[0][i] <= B[1][i], B[0][i] <= A[1][i]) for i in range(len(A[0]))])


def iff(c, label, r, cond, detail=""):
    """r a bool of the code under test"""
    c.check(label, cond if bool(r) else c.Not(cond), detail or ("answered " + str(bool(r))))


def of_points(c, n, d, given):
    m = c.mod(AABB)
    P = [[c.real(f"p{i}_{j}", -8, 8) for j in range(d)] for i in range(n)]
    c.feasible()
    if given:
        out = c.array([[c.num(99)] * d] * 2)
        r = m.aabb(c.array(P), out)
        c.eqm("written to the buffer", lst(out), lst(r))
    else:
        r = m.aabb(c.array(P))
    r = lst(r)
    if len(r) != 2 or len(r[0]) != d:
        c.fail("shape", f"{len(r)} x {len(r[0])}")
    for j in range(d):
        for k in range(n):
            c.le("lower bound", r[0][j], P[k][j])
            c.le("upper bound", P[k][j], r[1][j])
        c.check("attained", c.And(c.Or(*[r[0][j] == P[k][j] for k in range(n)]), c.Or(*[r[1][j] == P[k][j] for k in range(n)])))


def of_segment(c):
    m = c.mod(AABB)
    s, e = c.reals("s", 3, -8, 8), c.reals("e", 3, -8, 8)
    c.feasible()
    out = c.array([[c.num(0)] * 3] * 2)
    m.aabb_segm3d(c.array(s), c.array(e), out)
    r = lst(out)
    for j in range(3):
        c.check("lower", c.And(r[0][j] <= s[j], r[0][j] <= e[j], c.Or(r[0][j] == s[j], r[0][j] == e[j])))
        c.check("upper", c.And(r[1][j] >= s[j], r[1][j] >= e[j], c.Or(r[1][j] == s[j], r[1][j] == e[j])))


def overlap(c, how, d):
    A, B = box(c, "a", d), box(c, "b", d)
    c.feasible()
    a, b = c.array(list(A)), c.array(list(B))
    if how == "aabb_intersect":
        f = c.mod(AABB).aabb_intersect
    elif how == "fast":
        f = c.mod(AABB).aabb_intersect_fast_3d
    elif how == "overlap":
        f = c.mod(AABBPY).aabb_overlap
    else:
        m = c.mod(BVH)
        a, b = m.BoundingBox(*A), m.BoundingBox(*B)
        f = getattr(m.BoundingBox, how)
    iff(c, "overlap", f(a, b), strict(c, A, B) if how == "intersect_disjoint" else meet(c, A, B))
    iff(c, "symmetric", f(b, a), strict(c, A, B) if how == "intersect_disjoint" else meet(c, A, B))
    c.check("itself", bool(f(a, a)) or how == "intersect_disjoint")


def strict(c, A, B):
    return c.And(*[c.And(A[0][i] < B[1][i], B[0][i] < A[1][i]) for i in range(len(A[0]))])


def intersection(c, how, axes):
    A, B = box(c, "a", 3, axes), box(c, "b", 3, axes)
    x = [c.real(f"x{i}", -9, 9) if i in axes else c.num(0) for i in range(3)]
    c.feasible()
    if how == "array":
        r = c.mod(AABB).aabb_intersection(c.array(list(A)), c.array(list(B)))
        R = None if r is None else lst(r)
    elif how == "buffer":
        buf = c.array([[c.num(7)] * 3] * 2)
        r = c.mod(AABB).aabb_intersection(c.array(list(A)), c.array(list(B)), buf)
        R = None if r is None else lst(buf)
    else:
        m = c.mod(BVH)
        a, b = m.BoundingBox(*A), m.BoundingBox(*B)
        r = a.intersection(b) if how == "method" else a & b
        R = None if r is None else consistent(c, r)
    if R is None:
        c.check("none only for disjoint boxes", c.Not(meet(c, A, B)))
        return
    c.check("overlapping", meet(c, A, B))
    both = c.And(inside(c, A, x), inside(c, B, x))
    c.check("every common point", c.Implies(both, inside(c, R, x)))
    c.check("only common points", c.Implies(inside(c, R, x), both))
    c.check("a valid box", c.And(*[R[0][i] <= R[1][i] for i in range(3)]))


def consistent(c, b):
    lo, hi, arr = lst(b.min_point), lst(b.max_point), lst(b._arr)
    c.eqm("array of the box", arr, [lo, hi])
    c.eqv("dims", lst(b.dims), [h - l for l, h in zip(lo, hi)])
    c.eqv("center", lst(b.center), [(h + l) / 2 for l, h in zip(lo, hi)])
    c.eqv("centroid", lst(b.centroid()), [(h + l) / 2 for l, h in zip(lo, hi)])
    return [lo, hi]


def union(c, how, axes):
    m = c.mod(BVH)
    A, B = box(c, "a", 3, axes), box(c, "b", 3, axes)
    c.feasible()
    a, b = m.BoundingBox(*A), m.BoundingBox(*B)
    if how == "merge":
        r = a.merge(b)
    elif how == "or":
        r = a | b
    else:
        r = a
        a.expand(b)
    R = consistent(c, r)
    for i in range(3):
        c.check("lower", c.And(R[0][i] <= A[0][i], R[0][i] <= B[0][i], c.Or(R[0][i] == A[0][i], R[0][i] == B[0][i])))
        c.check("upper", c.And(R[1][i] >= A[1][i], R[1][i] >= B[1][i], c.Or(R[1][i] == A[1][i], R[1][i] == B[1][i])))
    c.check("meets both", bool(r.intersect(b)))
    c.eqm("argument untouched", [lst(b.min_point), lst(b.max_point)], list(B))


def contains(c, how, d):
    A = box(c, "a", d)
    x = c.reals("x", d, -9, 9)
    c.feasible()
    if how == "point_in_aabb":
        r = c.mod(AABBPY).point_in_aabb(c.array(list(A)), c.array(x))
    elif how == "contains_point":
        r = c.mod(BVH).BoundingBox(*A).contains_point(c.array(x))
    else:
        y = c.reals("y", d, -9, 9)
        r = lst(c.mod(BVH).BoundingBox(*A).contains_points(c.array([x, y])))
        iff(c, "second", r[1], inside(c, A, y))
        r = r[0]
    iff(c, "inside", r, inside(c, A, x))


def direction(c, axes, kinds):
    """start and end points / direction with the given kind per axis: '+', '-', '0', or 'f' fixed"""
    s, d = [], []
    for i in range(3):
        k = kinds[i]
        if k == "f":
            s.append(c.num(0))
            d.append(c.num(0))
            continue
        s.append(c.real(f"s{i}", -8, 8))
        if k == "0":
            d.append(c.num(0))
        else:
            x = c.real(f"d{i}", c.q(1, 64), 8)
            d.append(x if k == "+" else -x)
    return s, d


def line(c, what, kinds):
    axes = [i for i in range(3) if kinds[i] != "f"]
    B = box(c, "b", 3, axes)
    s, d = direction(c, axes, kinds)
    t = c.real("t", 0, None if what == "ray" else 1)
    c.feasible()
    m = c.mod(AABB)
    bb = c.array(list(B))
    e = [s[i] + d[i] for i in range(3)]
    pt = [s[i] + t * d[i] for i in range(3)]
    if what == "ray":
        r = m.ray_aabb_intersect(bb, c.array(s), c.array(d))
    elif what == "segment":
        r = m.segment_aabb_intersect(bb, c.array([s, e]))
    elif what == "clip":
        out = c.array([[c.num(50)] * 3] * 2)
        r = m.segment_aabb_clip(bb, c.array([s, e]), out)
        r2 = m.segment_aabb_intersect(bb, c.array([s, e]))
        if (r is None) != (r2 is None):
            c.fail("clip and intersect agree")
        if r is not None:
            r = r2
            c.eqm("clipped points", lst(out), [[s[i] + d[i] * r[k] for i in range(3)] for k in (0, 1)])
    else:
        sg = c.mod(BVH).Segment(c.array(s), c.array(e))
        q = sg.clip(c.mod(BVH).BoundingBox(*B))
        r = m.segment_aabb_intersect(bb, c.array([s, e]))
        if (q is None) != (r is None):
            c.fail("clip and intersect agree")
        if q is not None:
            c.eqv("clipped start", lst(q.start), [s[i] + d[i] * r[0] for i in range(3)])
            c.eqv("clipped end", lst(q.end), [s[i] + d[i] * r[1] for i in range(3)])
    if r is None:
        c.check("missed only if it misses", c.Not(inside(c, B, pt)))
        return
    r = lst(r)
    c.check("order", r[0] <= r[1])
    c.check("range", r[0] >= 0 if what == "ray" else c.And(r[0] >= 0, r[1] <= 1))
    if what == "ray" and all(k in "0f" for k in kinds):
        c.check("whole ray", inside(c, B, pt))
        return
    c.check("complete", c.Implies(inside(c, B, pt), c.And(r[0] <= t, t <= r[1])))
    c.check("sound", c.Implies(c.And(r[0] <= t, t <= r[1]), inside(c, B, pt)))


def split(c, how):
    m = c.mod(BVH)
    A = box(c, "a", 3)
    p = [c.real(f"q{i}", c.q(1, 8), c.q(7, 8)) for i in range(3)]
    c.feasible()
    a = m.BoundingBox(*A)
    cut = [A[0][i] + (A[1][i] - A[0][i]) * p[i] for i in range(3)]
    if how.startswith("split:"):
        k = int(how[6:])
        parts, axes = a.split(k, p[k]), (k,)
    elif how == "split4":
        parts, axes = a.split4(0, 1, p[1], p[0]), (0, 1)
    else:
        parts, axes = a.split8(0, 1, 2, p[0], p[2], p[1]), (0, 1, 2)
    if len(parts) != 2 ** len(axes):
        c.fail("count", str(len(parts)))
    # exactly the parts of the grid, in any order
    want = []
    for code in range(2 ** len(axes)):
        lo, hi = list(A[0]), list(A[1])
        for b, ax in enumerate(axes):
            if code >> b & 1:
                lo[ax] = cut[ax]
            else:
                hi[ax] = cut[ax]
        want.append((lo, hi))
    got = [consistent(c, x) for x in parts]
    vol = sum_(x.volume() for x in parts)
    c.eq("volumes add up", vol, a.volume())
    for lo, hi in want:
        c.check("part present", c.Or(*[c.And(*[c.And(g[0][i] == lo[i], g[1][i] == hi[i]) for i in range(3)]) for g in got]))
    c.eqm("original untouched", consistent(c, a), list(A))


def parts(c):
    """corners, edges, faces, evaluation"""
    m = c.mod(BVH)
    A = box(c, "a", 3)
    u = c.reals("u", 3, 0, 1)
    c.feasible()
    a = m.BoundingBox(*A)
    cs = lst(a.get_corners())
    if len(cs) != 8:
        c.fail("8 corners")
    want = [[A[(k >> i) & 1][i] for i in range(3)] for k in range(8)]
    for w in want:
        c.check("corner", c.Or(*[c.And(*[w[i] == x[i] for i in range(3)]) for x in cs]))
    E = [lst(x) for x in a.get_edges()]
    if len(E) != 12:
        c.fail("12 edges")
    for ax in range(3):
        o = [i for i in range(3) if i != ax]
        for x in (0, 1):
            for y in (0, 1):
                p = [None] * 3
                p[o[0]], p[o[1]] = A[x][o[0]], A[y][o[1]]
                lo, hi = list(p), list(p)
                lo[ax], hi[ax] = A[0][ax], A[1][ax]
                c.check("edge", c.Or(*[c.And(*[c.And(e[0][i] == lo[i], e[1][i] == hi[i]) for i in range(3)]) for e in E]))
    F = [lst(x) for x in a.get_faces()]
    if len(F) != 6:
        c.fail("6 faces")
    for ax in range(3):
        for side in (0, 1):
            alt = []
            for f in F:
                flat = c.And(*[v[ax] == A[side][ax] for v in f])
                o = [i for i in range(3) if i != ax]
                cyc = c.And(*[c.Or(f[k][o[0]] == f[(k + 1) % 4][o[0]], f[k][o[1]] == f[(k + 1) % 4][o[1]]) for k in range(4)])
                corners = c.And(*[c.Or(*[c.And(v[o[0]] == A[x][o[0]], v[o[1]] == A[y][o[1]]) for v in f]) for x in (0, 1) for y in (0, 1)])
                alt.append(c.And(flat, cyc, corners))
            c.check("face", c.Or(*alt))
    c.eqv("evaluate", lst(a.evaluate(c.array(u))), [A[0][i] + u[i] * (A[1][i] - A[0][i]) for i in range(3)])
    c.eq("volume", a.volume(), (A[1][0] - A[0][0]) * (A[1][1] - A[0][1]) * (A[1][2] - A[0][2]))


def curve_box(c, p, mult, w, ev):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, w)
    c.feasible()
    crv = curve(c, P, p, kn)
    r = lst(crv.bbox())
    tight(c, r, P)
    if ev:
        r2 = c.array([[c.num(9)] * 3] * 2)
        crv.bbox(r2)
        c.eqm("buffer", lst(r2), r)
        W = [x[3] for x in P] if w else None
        u = on_domain(c, "u", b)
        if W:
            weight_positive(c, kn, n, p, u, W)
        s, N = basis(kn, n, p, u)
        # partition of unity and non-negativity of the weights of the combination (each factor of every N_i is non-negative: property P01)
        pt = lst(crv.evaluate(u))
        low = c.real("low", -9, 9)
        for i in N:
            c.assume(N[i] >= 0)
            c.assume(low <= P[i][0])
        if not W:
            c.check("point right of every bound of the control points", pt[0] >= low)


def tight(c, r, P):
    for j in range(3):
        for x in P:
            c.le("lower bound", r[0][j], x[j])
            c.le("upper bound", x[j], r[1][j])
        c.check("attained", c.And(c.Or(*[r[0][j] == x[j] for x in P]), c.Or(*[r[1][j] == x[j] for x in P])))


def surface_box(c, pu, pv, nu, nv, w):
    bu, ku = clamped(c, "ku", pu, (1,) * (nu - pu - 1))
    bv, kv = clamped(c, "kv", pv, (1,) * (nv - pv - 1))
    E = [ctrl_sparse(c, f"P{i}", nv, 3, w) for i in range(nu)]
    c.feasible()
    P = [rational(r) for r in E] if w else E
    s = surface(c, P, pu, pv, ku, kv)
    tight(c, lst(s.bbox()), [x for r in E for x in r])


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, mods=(AABB, AABBPY, BVH), **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=mods, **k))
    for n, d in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (2, 4)] + ([] if q else [(3, 3), (4, 2), (5, 1)]):
        for g in (False, True):
            add("aabb", of_points, n, d, g)
    add("aabb_segm3d", of_segment)
    for how in ("aabb_intersect", "fast", "overlap", "intersect", "intersect_disjoint"):
        for d in (2, 3):
            if d == 3 or how in ("aabb_intersect", "overlap"):
                add("overlap", overlap, how, d)
    for how in ("array", "buffer", "method", "and"):
        for axes in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2)) + (((0, 1, 2),) if how in ("array",) or not q else ()):
            add("intersection", intersection, how, axes)
    for how in ("merge", "or", "expand"):
        for axes in ((0, 1), (1, 2)) if q else ((0, 1), (1, 2), (0, 1, 2)):
            add("union", union, how, axes)
    for how, d in (("point_in_aabb", 2), ("point_in_aabb", 3), ("contains_point", 2), ("contains_point", 3), ("contains_points", 3)):
        add("contains", contains, how, d)
    for what in ("ray", "segment", "clip", "Segment.clip"):
        for i in range(3):
            for k in "+-0":
                kk = ["f"] * 3
                kk[i] = k
                add("line", line, what, "".join(kk))
        if what != "Segment.clip":
            for i, j in ((0, 1), (1, 2), (0, 2)):
                for k in "+-0":
                    for l in "+-0":
                        kk = ["f"] * 3
                        kk[i], kk[j] = k, l
                        add("line", line, what, "".join(kk), weight=3)
        if what in ("segment", "ray"):
            for kk in ("+++", "+-+", "0+-", "-0+", "---") if q else [a + b + d for a in "+-0" for b in "+-0" for d in "+-0"]:
                add("line", line, what, kk, weight=9)
    for how in ("split:0", "split:1", "split:2", "split4", "split8"):
        add("split", split, how)
    add("parts", parts)
    for p in (1, 2):
        for n in range(p + 1, p + 3):
            for mult in mults(n, p):
                for w in (None, "pos"):
                    add("curve", curve_box, p, mult, w, n == p + 1 or p == 1, mods=(NURBS,))
    for pu, pv, nu, nv in ((1, 1, 2, 2), (1, 2, 2, 3)):
        for w in (None, "pos"):
            add("surface", surface_box, pu, pv, nu, nv, w, mods=(NURBS,))
    return out
