from common import *

BVH = "mmcore.geom.bvh"
BOUNDS = ("trees over 1 to 5 boxes (1-3 per leaf) with symbolic extents along one or two axes in [-8,8], every order and overlap of them; query boxes, points, segments and "
          "a second tree of up to 3 boxes symbolic; meshes of up to 3 parallel triangles at symbolic heights crossed by a symbolic segment or ray")
OUTSIDE = "more objects, general triangle positions (property on triangles), rounding"


def boxes(c, nm, n, axis, m, spread=0):
    """n objects whose extent along the axis is symbolic; along the others fixed, shifted by spread per object"""
    out, ext = [], []
    for i in range(n):
        a, b = c.real(f"{nm}{i}a", -8, 8), c.real(f"{nm}{i}b", -8, 8)
        c.assume(a <= b)
        lo, hi = [c.num(-1 + spread * i)] * 3, [c.num(1 + spread * i)] * 3
        lo[axis], hi[axis] = a, b
        ext.append((lo, hi))
        out.append(m.Object3D(m.BoundingBox(lo, hi), value=f"{nm}{i}"))
    return out, ext


def meet(c, A, B):
    return c.And(*[c.And(A[0][i] <= B[1][i], B[0][i] <= A[1][i]) for i in range(3)])


def flat(objs):
    r = []
    for o in objs:
        r += list(o.objects) if hasattr(o, "objects") else [o]
    return r


def walk(c, node, m):
    """every node's box holds its children's boxes; returns the objects of the leaves"""
    B = [lst(node.bounding_box.min_point), lst(node.bounding_box.max_point)]
    if node.object is not None:
        if node.left is not None or node.right is not None:
            c.fail("leaf with children")
        kids, res = [o.bounding_box for o in flat([node.object])], flat([node.object])
    else:
        if node.left is None or node.right is None:
            c.fail("inner node with a missing child")
        kids = [node.left.bounding_box, node.right.bounding_box]
        res = walk(c, node.left, m) + walk(c, node.right, m)
    for k in kids:
        lo, hi = lst(k.min_point), lst(k.max_point)
        for i in range(3):
            c.le("box holds its children (lower)", B[0][i], lo[i])
            c.le("box holds its children (upper)", hi[i], B[1][i])
    return res


def structure(c, n, axis, leaf, spread):
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, axis, m, spread)
    c.feasible()
    given = list(obj)
    t = m.build_bvh(obj, leaf)
    got = walk(c, t, m)
    c.check("every object once", sorted(x.value for x in got) == sorted(x.value for x in given))
    if any(a is not b for a, b in zip(sorted(got, key=lambda x: x.value), sorted(given, key=lambda x: x.value))):
        c.fail("the same objects")
    r = []
    m.traverse_leafs(t, r)
    c.check("traverse_leafs", sorted(x.value for x in flat(r)) == sorted(x.value for x in given))
    r = []
    m.traverse_all_objects_in_node(t, r)
    c.check("traverse_all_objects", sorted(x.value for x in flat(r)) == sorted(x.value for x in given))
    for leafsize in [len(flat([x])) for x in r]:
        c.check("leaf size", leafsize <= leaf)


def query(c, n, axis, leaf, what, spread=0):
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, axis, m, spread)
    if what == "box":
        a, b = c.real("qa", -9, 9), c.real("qb", -9, 9)
        c.assume(a <= b)
        lo, hi = [c.num(-1)] * 3, [c.num(1)] * 3
        lo[axis], hi[axis] = a, b
    else:
        a = c.real("qa", -9, 9)
        lo = [c.num(0)] * 3
        lo[axis] = a
        hi = lo
    c.feasible()
    t = m.build_bvh(list(obj), leaf)
    if what == "box":
        r = []
        m.traverse_bvh(t, m.BoundingBox(lo, hi), r)
    else:
        r = m.contains_point(t, c.array(lo))
    names = [x.value for x in flat(r)]
    c.check("no duplicates", len(names) == len(set(names)))
    for o, e in zip(obj, ext):
        hit = meet(c, (lo, hi), e)
        if leaf == 1:
            c.check("reported exactly if it meets", hit if o.value in names else c.Not(hit))
        elif o.value not in names:
            c.check("every meeting object is reported", c.Not(hit))


def pairs(c, n, k, axis, leaf, spread=0, ordered=False):
    m = c.mod(BVH)
    A, ea = boxes(c, "a", n, axis, m, spread)
    B, eb = boxes(c, "b", k, axis, m)
    if ordered:  # which object comes first does not matter when both orders are covered for one of the trees
        c.assume(ea[0][0][axis] + ea[0][1][axis] <= ea[1][0][axis] + ea[1][1][axis])
        c.assume(eb[0][0][axis] + eb[0][1][axis] <= eb[1][0][axis] + eb[1][1][axis])
    c.feasible()
    ta, tb = m.build_bvh(list(A), leaf), m.build_bvh(list(B), leaf)
    r = m.intersect_bvh_objects(ta, tb)
    got = [(x.value, y.value) for p, q in r for x in flat([p.object]) for y in flat([q.object])]
    c.check("no duplicates", len(got) == len(set(got)))
    for x, ex in zip(A, ea):
        for y, ey in zip(B, eb):
            hit = meet(c, ex, ey)
            if leaf == 1:
                c.check("pair reported exactly if the boxes meet", hit if (x.value, y.value) in got else c.Not(hit))
            elif (x.value, y.value) not in got:
                c.check("meeting pairs are reported", c.Not(hit))
    inter = m.intersect_bvh(ta, tb)
    c.check("one box per pair", len(inter) == len(r) and all(x is not None for x in inter))


def along(c, n, what, kind, leaf=1):
    """a segment along the axis of the boxes (or oblique)"""
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, 2, m)
    z0, dz = c.real("z0", -9, 9), c.real("dz", c.q(1, 64), 9)
    if kind == "down":
        dz = -dz
    cs = [x for lo, hi in ext for x in (lo[2], hi[2])] + [z0, z0 + dz]
    for i in range(len(cs)):
        for j in range(i):
            c.assume(c.Or(cs[i] == cs[j], cs[i] + c.q(1, 64) <= cs[j], cs[j] + c.q(1, 64) <= cs[i]))
    s = [c.q(1, 2), c.q(1, 4), z0]
    e = [c.q(1, 2), c.q(1, 4), z0 + dz]
    c.feasible()
    t = m.build_bvh(list(obj), leaf)
    if what == "stack":
        r = [x[0] for x in m.bvh_segment_intersection(t, c.array([s, e]))]
    elif what == "recursive":
        r = [x[0].object for x in m.bvh_segment_intersection_recursive(t, m.Segment(c.array(s), c.array(e)))]
    else:
        r = [x[0] for x in m.bvh_ray_intersection(t, m.Ray(c.array(s), c.array([0, 0, 1 if kind == "up" else -1])))]
    names = [x.value for x in flat(r)]
    c.check("no duplicates", len(names) == len(set(names)))
    for o, ex in zip(obj, ext):
        lo, hi = ex[0][2], ex[1][2]
        if what == "ray":
            hit = hi >= z0 if kind == "up" else lo <= z0
        else:
            hit = c.And(lo <= s[2], s[2] <= hi) if kind == "flat" else c.And(lo <= max_(c, s[2], e[2], kind), min_(c, s[2], e[2], kind) <= hi)
        c.check("reported exactly if crossed", hit if o.value in names else c.Not(hit))


def max_(c, a, b, kind):
    return b if kind == "up" else a


def min_(c, a, b, kind):
    return a if kind == "up" else b


def mesh(c, n, what, kind, leaf=1):
    """triangles at symbolic heights above one another, crossed by a vertical segment through their interior"""
    m = c.mod(BVH)
    h = [c.real(f"h{i}", -8, 8) for i in range(n)]
    for i in range(n):
        for j in range(i):
            c.assume(c.Or(h[i] + c.q(1, 64) <= h[j], h[j] + c.q(1, 64) <= h[i]))
    z0, dz = c.real("z0", -9, 9), c.real("dz", c.q(1, 64), 12)
    for x in h:
        for y in (z0, z0 + dz if kind == "up" else z0 - dz):
            c.assume(c.Or(x + c.q(1, 64) <= y, y + c.q(1, 64) <= x))
    px, py = c.q(1, 4), c.q(1, 8)
    tri = [[[c.num(0), c.num(0), x], [c.num(1), c.num(0), x], [c.num(0), c.num(1), x]] for x in h]
    s = [px, py, z0]
    e = [px, py, z0 + dz if kind == "up" else z0 - dz]
    c.feasible()
    ts = [m.Triangle(c.array(x), value=i) for i, x in enumerate(tri)]
    t = m.build_bvh(list(ts), leaf)
    lo, hi = (s[2], e[2]) if kind == "up" else (e[2], s[2])
    crossed = [c.And(lo <= x, x <= hi) for x in h]
    if what == "one":
        ok, pt, o = m.bvh_triangle_segment_intersection_one(t, c.array([s, e]))
        if not ok:
            c.check("missed only if nothing is crossed", c.And(*[c.Not(x) for x in crossed]))
            return
        pt = lst(pt)
        names = [x.value for x in flat([o])]
        c.check("a crossed triangle", c.Or(*[c.And(crossed[i], pt[2] == h[i]) for i in names]))
        c.eqv("point", pt[:2], [px, py])
        r = m.mesh_bvh_segment_intersection_one(t, c.array([s, e]))
        c.check("wrapper", r is not None)
        return
    ray = m.Ray(c.array(s), c.array([0, 0, 1 if kind == "up" else -1]))
    ahead = [x >= s[2] if kind == "up" else x <= s[2] for x in h]
    r = m.mesh_bvh_ray_intersection(t, ray)
    names = [x[1].value for x in r]
    c.check("no duplicates", len(names) == len(set(names)))
    for i in range(n):
        c.check("triangle reported exactly if it lies ahead", ahead[i] if i in names else c.Not(ahead[i]))
    for p, o, d in r:
        c.eqv("point", lst(p), [px, py, h[o.value]])
        c.eq("distance along the ray", d, h[o.value] - s[2] if kind == "up" else s[2] - h[o.value])
    for (p, o, d), (p2, o2, d2) in zip(r, r[1:]):
        c.check("sorted by distance", lst(p)[2] <= lst(p2)[2] if kind == "up" else lst(p)[2] >= lst(p2)[2])


def indexed(c):
    m = c.mod(BVH)
    P = [[c.real(f"p{i}", -4, 4), c.num(i), c.num(i * i % 3)] for i in range(4)]
    c.feasible()
    t = m.build_bvh_from_mesh(c.array(P), c.np.array([[0, 1, 2], [1, 3, 2]]))
    got = walk(c, t, m)
    c.check("two triangles", len(got) == 2)
    for T in ([0, 1, 2], [1, 3, 2]):
        c.check("triangle", c.Or(*[c.And(*[lst(g.pts)[k][0] == P[T[k]][0] for k in range(3)] + [c.And(*[lst(g.pts)[k][1] == P[T[k]][1] for k in range(3)])]) for g in got]))


def curve_piece(c, kw):
    m, nb = c.mod(BVH), c.mod(NURBS)
    P = ctrl_sparse(c, "P", 3, 3)
    b, kn = clamped(c, "k", 2, ())
    u = on_domain(c, "u", b)
    c.feasible()
    crv = curve(c, P, 2, kn)
    o = m.NURBSCurveObject3D(crv, value="v") if kw else m.NURBSCurveObject3D(crv)
    c.check("value", o.value == ("v" if kw else None))
    t = (b[0] + b[1]) / 2
    for h in o.split():
        i = h.curve.interval()
        if bool(c.And(i[0] <= u, u <= i[1])):
            c.eqv("piece", lst(h.curve.evaluate(u)), ref_curve(kn, 2, P, u))


def sdist(c, lo, hi, p):
    """signed distance from p to a box: squared distance outside (first), or minus the depth inside (second)"""
    out, inside = 0, None
    for i in range(3):
        if bool(p[i] < lo[i]):
            out = out + (lo[i] - p[i]) * (lo[i] - p[i])
        elif bool(p[i] > hi[i]):
            out = out + (p[i] - hi[i]) * (p[i] - hi[i])
        for d in (p[i] - lo[i], hi[i] - p[i]):
            inside = d if inside is None or bool(d < inside) else inside
    return out, inside


def signed(c, axis):
    m = c.mod(BVH)
    lo, hi = [c.num(-1), c.num(-2), c.num(-3)], [c.num(2), c.num(1), c.num(3)]
    lo[axis], hi[axis] = c.real("lo", -8, 8), c.real("hi", -8, 8)
    c.assume(lo[axis] <= hi[axis])
    p = [c.real(f"p{i}", -9, 9) for i in range(3)]
    c.feasible()
    out, ins = sdist(c, lo, hi, p)
    d = m.sd_aabb(c.array([lo, hi]), c.array(p))
    if bool(c.And(*[c.And(lo[i] <= p[i], p[i] <= hi[i]) for i in range(3)])):
        c.eq("depth inside", d, -ins)
    else:
        c.check("positive outside", d > 0)
        c.eq("distance outside", d * d, out)


def nearest(c, n, axis, leaf, how):
    """the objects whose boxes are closest to the point"""
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, axis, m)
    for x, y in zip(ext, ext[1:]) if n == 3 else ():  # the order of the objects is covered with two of them
        c.assume(x[0][axis] + x[1][axis] < y[0][axis] + y[1][axis])
    a = c.real("q", -9, 9)
    p = [c.num(0)] * 3
    p[axis] = a
    c.feasible()
    t = m.build_bvh(list(obj), leaf)
    r = m.find_closest(t, c.array(p), how == "breadth")

    def sd(e):
        lo, hi = e[0][axis], e[1][axis]
        if bool(a < lo):
            return lo - a
        if bool(a > hi):
            return a - hi
        k = a - lo if bool(a - lo < hi - a) else hi - a
        return -k if bool(k < 1) else c.num(-1)
    S = [sd(e) for e in ext]
    within = [x <= 0 for x in S]
    if how == "vicinity" and n > 1 and leaf == 1:
        if r is None:
            c.check("none only if no box holds the point", c.Not(c.Or(*within)))
            return
        c.check("only boxes holding the point", c.And(*[within[int(x.value[1:])] for x in r[0]]))
    if leaf > 1:
        return
    objs, d = r
    names = [x.value for x in objs]
    c.check("no duplicates", len(names) == len(set(names)) >= 1)
    for o, s in zip(obj, S):
        if o.value in names:
            c.eq("distance", d, s)
        else:
            c.check("no closer object" if how == "breadth" else "no object deeper around the point", d < s)


def node_at(c, n, axis, leaf):
    """the innermost node around a point: holds it, and so does no leaf outside"""
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, axis, m)
    p = [c.num(0)] * 3
    p[axis] = c.real("q", -9, 9)
    c.feasible()
    t = m.build_bvh(list(obj), leaf)
    holds = [c.And(e[0][axis] <= p[axis], p[axis] <= e[1][axis]) for e in ext]
    r = m.traverse_bvh_point(t, c.array(p))
    L, H = lst(t.bounding_box.min_point)[axis], lst(t.bounding_box.max_point)[axis]
    if r is None:
        c.check("none only outside the tree", c.Or(p[axis] < L, p[axis] > H))
        return
    c.check("the node holds the point", c.And(lst(r.bounding_box.min_point)[axis] <= p[axis], p[axis] <= lst(r.bounding_box.max_point)[axis]))
    q = []
    m.traverse_leafs(r, q)
    names = [x.value for x in flat(q)]
    for o, h in zip(obj, holds):
        if o.value not in names:
            c.check("every object around the point is below", c.Not(h))
    if len(names) == 1 == leaf and n > 1 and r is not t:
        c.check("the object holds the point", holds[int(names[0][1:])])
    if len(names) > 1 and leaf == 1:  # not the innermost otherwise
        def inside(x):
            return c.And(lst(x.bounding_box.min_point)[axis] <= p[axis], p[axis] <= lst(x.bounding_box.max_point)[axis])
        a, b = inside(r.left), inside(r.right)
        c.check("the innermost", c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b))))


def again(c, n, axis, leaf):
    """the second traversal reports what the first one does"""
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, axis, m)
    lo, hi = [c.num(-1)] * 3, [c.num(1)] * 3
    lo[axis], hi[axis] = c.real("qa", -9, 9), c.real("qb", -9, 9)
    c.assume(lo[axis] <= hi[axis])
    c.feasible()
    t = m.build_bvh(list(obj), leaf)
    r, s = [], []
    m.traverse_bvh(t, m.BoundingBox(lo, hi), r)
    m.traverse_bvh2(t, m.BoundingBox(lo, hi), s)
    c.check("only objects", all(x is not None for x in s))
    c.check("same objects", sorted(x.value for x in flat(r)) == sorted(x.value for x in flat(s)))
    for x, y in ((m.contains_point(t, c.array(lo)), m.contains_point2(t, c.array(lo))),):
        c.check("only objects around a point", all(k is not None for k in y))
        c.check("same objects around a point", sorted(k.value for k in flat(x)) == sorted(k.value for k in flat(y)))


def all_boxes(c, n):
    m = c.mod(BVH)
    obj, ext = boxes(c, "o", n, 0, m, 3)
    c.feasible()
    t = m.build_bvh(list(obj), 1)
    r = []
    m.traverse_all_bbox(t, r)
    c.check("every node", len(r) == 2 * n - 1)

    def go(node):
        yield node.bounding_box
        if node.object is None:
            yield from go(node.left)
            yield from go(node.right)
    for b, (lo, hi) in zip(go(t), r):
        c.eqv("box", list(lo) + list(hi), lst(b.min_point) + lst(b.max_point))


def predicates(c, kind):
    m = c.mod(BVH)
    lo, hi = [c.real(f"l{i}", -4, 4) for i in range(3)], [c.real(f"h{i}", -4, 4) for i in range(3)]
    if kind == "size":
        for a, b in zip(lo, hi):
            c.assume(c.Or(a == b, b - a >= c.q(1, 64)))
    c.feasible()
    b = m.BoundingBox(lo, hi)
    if kind == "size":
        s = 1
        for x, y in zip(lo, hi):
            if not bool(x == y):
                s = s * (y - x)
        c.eq("size", b.size_metric(), s)
        return
    proper, thin = c.And(*[x < y for x, y in zip(lo, hi)]), c.And(*[x <= y for x, y in zip(lo, hi)])
    c.check("finite", bool(b.is_finite()))
    c.check("volume", proper if bool(b.is_non_zero_volume()) else c.Not(proper))
    c.check("consistency", thin if bool(b.is_consistency()) else c.Not(thin))
    c.check("valid", proper if bool(b.is_valid()) else c.Not(proper))
    c.eqv("array", lst(b.__array__()[0]) + lst(b.__array__()[1]), lo + hi)


def segment_object(c, what):
    m = c.mod(BVH)
    a, b = [c.real(f"a{i}", -4, 4) for i in range(3)], [c.real(f"b{i}", -4, 4) for i in range(3)]
    t = c.real("t", 0, 1)
    c.feasible()
    s = m.Segment(c.array(a), c.array(b), value=5)
    d = c.sub(b, a)
    at = [x + t * y for x, y in zip(a, d)]
    c.check("value", s.value == 5)
    if what == "lengths":
        c.eq("squared length", s.length_sq(), c.dot(d, d))
        n = s.length()
        c.check("length", n >= 0)
        c.eq("length squared", n * n, c.dot(d, d))
        if bool(s.is_zero()):
            for x in d:
                c.le("zero", x * x, c.q(1, 10 ** 14))
        else:
            c.check("not zero", c.Or(*[x != 0 for x in d]))
    elif what == "pieces":
        c.eqv("point", lst(s.evaluate(t)), at)
        p, q = s.subdivide(t)
        c.eqv("first half", lst(p.start) + lst(p.end), a + at)
        c.eqv("second half", lst(q.start) + lst(q.end), at + b)
        c.eqv("directions", [x + y for x, y in zip(lst(p.direction), lst(q.direction))], d)
    else:
        c.eqv("ends", [x for r in s for x in r], a + b)
        lo, hi = lst(s.bounding_box.min_point), lst(s.bounding_box.max_point)
        for i in range(3):
            c.check("box", c.And(lo[i] <= a[i], lo[i] <= b[i], hi[i] >= a[i], hi[i] >= b[i], c.Or(lo[i] == a[i], lo[i] == b[i]), c.Or(hi[i] == a[i], hi[i] == b[i])))


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, mods=(BVH,), **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=mods, **k))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for leaf in (1, 2, 3):
            for axis, spread in ((0, 0), (1, 3), (2, 0)) if n < 4 else ((0, 0),):
                if q and n == 4 and leaf > 1:
                    continue
                add("structure", structure, n, axis, leaf, spread)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for leaf in (1, 2):
            for what in ("box", "point"):
                for axis in (0, 1, 2):
                    if q and n == 3 and axis == 1 and leaf == 2:
                        continue
                    add("query", query, n, axis, leaf, what, weight=3)
    add("query spread", query, 3, 0, 1, "box", 3)
    for n, k in ((1, 1), (1, 2), (2, 1), (2, 2)) + (() if q else ((3, 1), (1, 3), (3, 2))):
        for axis in (0, 1, 2):
            if n == k == 2 and (not q or axis != 1):
                add("pairs", pairs, n, k, axis, 1, 0, True, weight=9)
            if q and n == k == 2:
                continue
            add("pairs", pairs, n, k, axis, 1, weight=5, **({} if q else dict(paths=20000, time_s=600)))
        add("pairs", pairs, n, k, 0, 2, weight=4)
    for what in ("stack", "recursive", "ray"):
        for kind in ("up", "down"):
            for n in (1, 2):
                add("segment", along, n, what, kind, weight=6)
    add("segment", along, 3, "stack", "up", 2, weight=6) if not q else None
    for what in ("one", "ray"):
        for kind in ("up", "down"):
            for n in (1, 2) if q else (1, 2, 3):
                add("mesh", mesh, n, what, kind, weight=6)
    for n in (2,):
        add("mesh", mesh, n, "one", "up", 2, weight=6)
        add("mesh", mesh, n, "ray", "up", 2, weight=6)
    for kw in (False, True):
        add("curve", curve_piece, kw)
    for axis in (0, 1, 2):
        add("distance to a box", signed, axis)
    for n in (1, 2, 3):
        for axis in (0, 1, 2) if n < 3 else (0,):
            for how in ("breadth", "vicinity"):
                add("nearest", nearest, n, axis, 1, how, weight=4)
            add("innermost", node_at, n, axis, 1, weight=3)
            add("second traversal", again, n, axis, 1, weight=3)
    add("innermost", node_at, 3, 0, 2)
    add("second traversal", again, 3, 0, 2)
    for n in (1, 3):
        add("all boxes", all_boxes, n)
    for k in ("size", "valid"):
        add("box predicates", predicates, k)
    for k in ("lengths", "pieces", "ends"):
        add("segment object", segment_object, k)
    return out
