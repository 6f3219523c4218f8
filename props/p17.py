from common import *

PR, IMP, TREE, CIR = "mmcore.geom.primitives", "mmcore.geom.implicit.implicit", "mmcore.geom.implicit.tree", "mmcore.geom.circle"
BOUNDS = ("spheres, cylinders and tubes with every coordinate, radius, thickness and query point symbolic (axes fully symbolic for the implicit form, eight "
          "directions of symbolic length and placement for the parametric form, every angle), boolean combinations of two or three shapes with arbitrary values and "
          "boxes, quadtrees of depth 0-2 and octrees of depth 0-1 over arbitrary boxes with arbitrary corner signs or half planes, circles with arbitrary "
          "centres and radii")
OUTSIDE = "marching, dual contouring and the B-spline fits of implicit curves; gradients of non-quadratic shapes (finite differences); query points on an axis or a centre"


def dist2(c, p, o):
    return c.dot(c.sub(p, o), c.sub(p, o))


def point(c, nm, n=3, lim=4):
    return [c.real(nm + "xyz"[i], -lim, lim) for i in range(n)]


def axis_dist2(c, p, o, d):
    w = c.cross(c.sub(p, o), d)
    return c.dot(w, w), c.dot(d, d)


def sphere(c, how):
    m = c.mod(PR)
    o, p = point(c, "o"), point(c, "p")
    r = c.real("r", c.q(1, 16), 4)
    q = dist2(c, p, o)
    c.assume(q >= c.q(1, 16))
    c.feasible()
    if how == "new":
        s = m.Sphere(c.array(o), r)
    else:
        s = m.Sphere(c.array(point(c, "z")), c.real("r0", c.q(1, 16), 4))
        if how == "origin, radius":
            s.origin = c.array(o)
            s.radius = r
        else:
            s.radius = r
            s.origin = c.array(o)
    k = c.sqrt(q)
    c.eq("distance", s.implicit(c.array(p)), k - r)
    c.eqv("gradient", lst(s.gradient(c.array(p))), [(p[i] - o[i]) / k for i in range(3)])
    b = lst(s.bounds())
    c.eqv("box", b[0] + b[1], [x - r for x in o] + [x + r for x in o])
    c.eqv("tuple", list(s.astuple()), o + [r])
    c.eq("radius", s.radius, r)
    c.eqv("origin", lst(s.origin), o)


def axis(c, e, o):
    d = c.sub(e, o)
    c.assume(c.dot(d, d) >= c.q(1, 4))
    return d


def make_cyl(c, how, o, e, r, tube=None):
    m = c.mod(PR)
    f = (lambda a, b, k: m.Tube(a, b, k, tube)) if tube is not None else m.ImplicitCylinder
    if how == "new":
        return f(c.array(o), c.array(e), r)
    z = [o, e, r]
    z0 = [c.num(x) for x in (7, 8, 9)] if "start" in how else o
    z1 = [c.num(x) for x in (-7, 11, -10)] if "end" in how else e
    s = f(c.array(z0), c.array(z1), c.num(5) if "radius" in how else r)
    for k in how.split():
        if k == "start":
            s.start = c.array(o)
        elif k == "end":
            s.end = c.array(e)
        else:
            s.radius = r
    return s


def box_of_cyl(c, b, o, e, d, R):
    dd = c.dot(d, d)
    for i in range(3):
        mx = b[1][i] - c_max(c, o[i], e[i])
        mn = c_min(c, o[i], e[i]) - b[0][i]
        for nm, x in (("upper", mx), ("lower", mn)):
            c.check(f"box {nm} {i} not short", x >= -c.q(1, 10 ** 9))
            c.eq(f"box {nm} {i}", x * x * dd, R * R * (dd - d[i] * d[i]))


def c_max(c, a, b):
    return a if a >= b else b


def c_min(c, a, b):
    return a if a <= b else b


AXES = [(1, 2, 2), (-3, 1, 0), (0, 0, 2)]


def cyl_points(c, where):
    """either everything is placed at the origin with a free axis, or everything is free but the axis"""
    p = point(c, "p")
    if where == "free axis":
        o, e = [c.num(0)] * 3, point(c, "e")
    else:
        o = point(c, "o")
        e = [o[i] + AXES[c.pick("axis", len(AXES))][i] for i in range(3)]
    return o, e, p


def cylinder(c, how, what, where=""):
    o, e, p = cyl_points(c, where) if where else (point(c, "o"), point(c, "e"), point(c, "p"))
    r = c.real("r", c.q(1, 16), 4)
    d = axis(c, e, o)
    if what == "distance":
        cr, dd = axis_dist2(c, p, o, d)
        c.assume(cr >= c.q(1, 16))
    c.feasible()
    s = make_cyl(c, how, o, e, r)
    if what == "distance":
        v = s.implicit(c.array(p)) + r
        c.check("distance not negative", v >= 0)
        c.eq("distance", v * v * dd, cr)
        g = lst(s.gradient(c.array(p)))
        c.eq("gradient across the axis", c.dot(g, d), 0)
        c.eq("gradient is unit", c.dot(g, g), 1)
        # it points from the axis to the point
        w = c.sub(p, o)
        c.eq("gradient direction", c.dot(g, w), v)
    else:
        box_of_cyl(c, lst(s.bounds()), o, e, d, r)
        c.eqv("tuple", list(s.astuple()), o + e + [r])
        c.eqv("direction", lst(s.direction), d)
        c.eqv("start", lst(s.start), o)
        c.eqv("end", lst(s.end), e)
        c.eq("radius", s.radius, r)


def tube(c, how, what, where=""):
    o, e, p = cyl_points(c, where) if where else (point(c, "o"), point(c, "e"), point(c, "p"))
    r, t = c.real("r", c.q(1, 2), 4), c.real("t", c.q(1, 16), c.q(1, 2))
    if what == "gradient":
        o, e = [0, 0, 0], [[0, 0, 2], [2, 0, 0], [0, -3, 0], [1, 2, 2]][c.pick("axis", 4)]
        o, e = [c.num(x) for x in o], [c.num(x) for x in e]
    d = axis(c, e, o)
    if what != "box":
        cr, dd = axis_dist2(c, p, o, d)
        c.assume(cr >= c.q(1, 16))
    c.feasible()
    s = make_cyl(c, how, o, e, r, t)
    if what == "distance":
        v = s.implicit(c.array(p)) + t / 2          # distance from the middle wall
        c.check("not negative", v >= 0)
        # v = |r - a| with a the distance from the axis: a = r - v or a = r + v
        c.check("distance", c.Or(c.And(v <= r, (r - v) * (r - v) * dd == cr), (r + v) * (r + v) * dd == cr)
                if not isinstance(v, float) else c.Or(abs((r - v) ** 2 * dd - cr) < 1e-6 * (1 + abs(cr)), abs((r + v) ** 2 * dd - cr) < 1e-6 * (1 + abs(cr))))
    elif what == "gradient":
        g = lst(s.gradient(c.array(p)))
        h = c.q(1, 1000)
        for i in range(3):
            a, b = list(p), list(p)
            a[i] = a[i] + h
            b[i] = b[i] - h
            c.eq(f"gradient {i}", g[i], (s.implicit(c.array(a)) - s.implicit(c.array(b))) / (2 * h), 1e-9)
    else:
        box_of_cyl(c, lst(s.bounds()), o, e, d, r + t / 2)
        c.eqv("tuple", list(s.astuple()), o + e + [r, t])


DIRS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (3, 4, 0), (-12, 0, 5)]


def param_cyl(c, k):
    m = c.mod(PR)
    o = point(c, "o")
    D = DIRS[k]
    n = round(sum(x * x for x in D) ** .5)
    L = c.real("L", c.q(1, 4), 4)
    e = [o[i] + L * c.q(D[i], n) for i in range(3)]
    r = c.real("r", c.q(1, 16), 4)
    u, v = c.angle("u"), c.real("v", 0, 4)
    c.assume(v <= L)
    c.feasible()
    s = m.Cylinder(c.array(o), c.array(e), r)
    it = lst(s.interval())
    c.eqv("interval", it[0] + it[1], [0, 2 * c.np.pi, 0, L])
    P = lst(s.evaluate(c.array([u, v])))
    w = c.sub(P, o)
    d = [c.q(x, n) for x in D]
    c.eq("height", c.dot(w, d), v)
    c.eq("distance from the axis", c.dot(w, w), v * v + r * r)
    c.eq("on the implicit surface", s.implicit(c.array(P)), 0)
    g = lst(s.gradient(c.array(P)))
    c.eqv("gradient", g, [(w[i] - v * d[i]) / r for i in range(3)])
    P1 = lst(s.evaluate(c.array([u + c.np.pi, v])))
    c.eqv("half a turn is the opposite point", [P1[i] + P[i] for i in range(3)], [2 * (o[i] + v * d[i]) for i in range(3)])
    P2 = lst(s.evaluate(c.array([u + c.np.pi / 2, v])))
    c.eq("quarter of a turn is perpendicular", c.dot([P2[i] - o[i] - v * d[i] for i in range(3)], [P[i] - o[i] - v * d[i] for i in range(3)]), 0)
    b = lst(s.bounds())
    for i in range(3):
        c.le(f"box lower {i}", b[0][i], P[i], 1e-9)
        c.le(f"box upper {i}", P[i], b[1][i], 1e-9)


# ------------------------------------------------------------------------------------------------- boolean combinations

def shape(c, m, dim, name, boxes=True):
    v = c.real(name + "_v", -4, 4)
    if not boxes:
        lo, hi = [c.num(-1)] * dim, [c.num(1)] * dim
    else:
        lo, hi = some_box(c, name, dim)
    B = m.Implicit2D if dim == 2 else m.Implicit3D

    class S(B):
        def implicit(self, x):
            return v

        def bounds(self):
            return tuple(lo), tuple(hi)
    return S(), v, lo, hi


def some_box(c, name, dim):
    lo, hi = [c.real(f"{name}_l{i}", -4, 4) for i in range(dim)], [c.real(f"{name}_h{i}", -4, 4) for i in range(dim)]
    for a, b in zip(lo, hi):
        c.assume(a < b)
    return lo, hi


OPS = dict(union=(("union", "__add__", "__or__"), lambda a, b: (a, b)), intersection=(("intersection", "__and__"), None),
           difference=(("substraction", "__sub__"), None))


def iff(c, label, x, y):
    x, y = bool(x), bool(y)
    c.check(label, x == y, f"{x} {y}")


def boolean(c, dim, op, how, boxes):
    m = c.mod(IMP)
    A, a, al, ah = shape(c, m, dim, "a", boxes)
    B, b, bl, bh = shape(c, m, dim, "b", boxes)
    p = c.array(point(c, "p", dim))
    c.feasible()
    R = getattr(A, how)(B)
    v = R.implicit(p)
    v = v if not hasattr(v, "item") else v.item()
    if op == "union":
        ins, out = (a < 0, b < 0), (a > 0, b > 0)
        i, o = bool(a < 0) or bool(b < 0), bool(a > 0) and bool(b > 0)
    elif op == "intersection":
        i, o = bool(a < 0) and bool(b < 0), bool(a > 0) or bool(b > 0)
    else:
        i, o = bool(a < 0) and bool(b > 0), bool(a > 0) or bool(b < 0)
    if not boxes:
        iff(c, "inside", v < 0, i)
        iff(c, "outside", v > 0, o)
    c.check("the value is one of the parts'", c.Or(v == a, v == b, v == -b))
    w = R(p)
    c.eq("call", w if not hasattr(w, "item") else w.item(), v)
    lo, hi = R.bounds()
    lo, hi = list(lo), list(hi)
    for k in range(dim):
        for nm, x, y, z, lower in (("lower", lo[k], al[k], bl[k], True), ("upper", hi[k], ah[k], bh[k], False)):
            if op == "difference":
                c.eq(f"box {nm} {k}", x, y)
                continue
            small = (op == "union") == lower
            c.check(f"box {nm} {k}", c.And(c.Or(x == y, x == z), (x <= y) if small else (x >= y), (x <= z) if small else (x >= z)))
    if dim == 2 and not boxes:
        r = bool(R.point_inside(p))
        if bool(v <= 0):
            c.check("point inside", r)
        elif bool(v > c.q(1, 10 ** 6)):
            c.check("point outside", not r)


def nested(c, dim, op1, op2):
    m = c.mod(IMP)
    A, a, al, ah = shape(c, m, dim, "a", False)
    B, b, bl, bh = shape(c, m, dim, "b", False)
    C, d, cl, ch = shape(c, m, dim, "c", False)
    p = c.array(point(c, "p", dim))
    c.feasible()
    R = getattr(getattr(A, OPS[op1][0][0])(B), OPS[op2][0][0])(C)
    v = R.implicit(p)
    v = v if not hasattr(v, "item") else v.item()

    def inside(op, x, y_in, y_out):
        return {"union": x or y_in, "intersection": x and y_in, "difference": x and y_out}[op]
    i = inside(op2, inside(op1, bool(a < 0), bool(b < 0), bool(b > 0)), bool(d < 0), bool(d > 0))
    iff(c, "inside", v < 0, i)


def many(c, dim):
    """calling a shape with an array of points evaluates every point"""
    m = c.mod(IMP)
    k = [c.real(f"k{i}", -2, 2) for i in range(dim + 1)]
    B = m.Implicit2D if dim == 2 else m.Implicit3D

    class S(B):
        def implicit(self, x):
            return sum_([k[i] * x[i] for i in range(dim)]) + k[dim]
    s = S()
    P = [point(c, f"p{i}", dim) for i in range(3)]
    c.assume(c.dot(k[:dim], k[:dim]) >= c.q(1, 16))
    c.feasible()
    r = s(c.array(P))
    r = lst(r)
    c.check("count", len(r) == 3)
    for i in range(3):
        c.eq(f"value {i}", r[i], sum_([k[j] * P[i][j] for j in range(dim)]) + k[dim])
    g = lst(s.gradient(c.array(P[0]))) if dim == 2 else None
    if g:
        c.eqv("gradient", g, k[:2], 1e-9)


# ------------------------------------------------------------------------------------------------- quadtrees, octrees

def tree(c, dim, depth, kind, api):
    lo, hi = [c.real(f"l{i}", -4, 4) for i in range(dim)], [c.real(f"h{i}", -4, 4) for i in range(dim)]
    for a, b in zip(lo, hi):
        c.assume(b - a >= c.q(1, 16))
    N = 2 ** depth
    grid = [[lo[i] + (hi[i] - lo[i]) * c.q(k, N) for k in range(N + 1)] for i in range(dim)]

    def cell_index(i, x):
        """index of the grid line through coordinate x"""
        for k in range(N + 1):
            d = x - grid[i][k]
            if isinstance(d, float) and abs(d) < 1e-9 or not isinstance(d, float) and bool(d == 0):
                return k
        return None
    if kind == "plane":
        k = [c.real(f"k{i}", -2, 2) for i in range(dim + 1)]

        def val(ix):
            return sum_([k[i] * grid[i][ix[i]] for i in range(dim)]) + k[dim]

        def f(x):
            return sum_([k[i] * x[i] for i in range(dim)]) + k[dim]
    else:
        # every grid point has its own value; a few are free, the others constant
        free = {}
        import itertools
        pts = list(itertools.product(range(N + 1), repeat=dim))
        base = c.pick("base", 2)
        start = {0: 0, 1: len(pts) // 2}[c.pick("start", 2)]
        for j, ix in enumerate(pts):
            free[ix] = c.real("v" + "_".join(map(str, ix)), -1, 1) if start <= j < start + kind else c.num(1 if base else -1)

        def val(ix):
            return free[tuple(ix)]

        def f(x):
            ix = [cell_index(i, x[i]) for i in range(dim)]
            c.check("the shape is asked at grid points", None not in ix)
            return free[tuple(ix)]
    c.feasible()
    m = c.mod(TREE)
    T = m.ImplicitTree2D if dim == 2 else m.ImplicitTree3D
    box = (tuple(lo), tuple(hi))
    if api == "tree":
        t = T(f, depth, bounds=box)
        t.build()
    elif api == "rebuild":
        t = T(f, 0, bounds=box)
        t.build()
        t.build(depth=depth)
    else:
        im = c.mod(IMP)
        B = im.Implicit2D if dim == 2 else im.Implicit3D

        class S(B):
            def implicit(self, x):
                return f(x)

            def bounds(self):
                return box
        s = S()
        s.build_tree(depth)
        t = s.tree
        c.check("same tree", t is s.tree)
    seen = {}
    import itertools
    for kindname, cells in (("full", t.full), ("empty", t.empty), ("border", t.border)):
        for q in cells:
            a = [cell_index(i, q[0][i]) for i in range(dim)]
            b = [cell_index(i, q[1][i]) for i in range(dim)]
            c.check("cells lie on the grid", None not in a and None not in b)
            for ix in itertools.product(*[range(x, y) for x, y in zip(a, b)]):
                c.check("cells do not overlap", ix not in seen)
                seen[ix] = kindname
            c.check("border cells are the smallest", kindname != "border" or all(y - x == 1 for x, y in zip(a, b)))
    c.check("cells cover the box", len(seen) == N ** dim, f"{len(seen)} of {N ** dim}")
    for ix, kn in seen.items():
        cs = [val([x + y for x, y in zip(ix, o)]) for o in itertools.product((0, 1), repeat=dim)]
        if kn == "full":
            c.check("full cell inside", c.And(*[x < 0 for x in cs]))
        elif kn == "empty":
            c.check("empty cell outside", c.And(*[x >= 0 for x in cs]))
        else:
            c.check("border cell mixed", c.And(c.Or(*[x < 0 for x in cs]), c.Or(*[x >= 0 for x in cs])))


# ------------------------------------------------------------------------------------------------- circles

def circle(c, what):
    m = c.mod(CIR)
    o = point(c, "o", 2)
    r = c.real("r", c.q(1, 16), 4)
    s = m.Circle2D(c.array(o), r)
    if what == "evaluate":
        u = c.angle("u")
        c.feasible()
        p = lst(s.evaluate(u))
        w = c.sub(p, o)
        c.eq("on the circle", c.dot(w, w), r * r)
        c.eqv("point", p, [o[0] + r * c.np.cos(u), o[1] + r * c.np.sin(u)])
        c.eq("implicit", s.implicit(c.array(p)), 0)
        q = lst(s.evaluate(u + c.np.pi))
        c.eqv("opposite", [p[i] + q[i] for i in range(2)], [2 * x for x in o])
        return
    p = point(c, "p", 2)
    q = dist2(c, p, o)
    c.assume(q >= c.q(1, 16))
    if what == "tangents":
        c.assume(q >= r * r + c.q(1, 16))
    c.feasible()
    k = c.sqrt(q)
    if what == "implicit":
        c.eq("distance", s.implicit(c.array(p)), k - r)
        g = lst(s.gradient(c.array(p)))
        c.eqv("gradient", g, [(p[i] - o[i]) / k for i in range(2)])
        t = lst(s.point_on_curve(c.array(p))[0])
        c.eqv("point on the circle", t, [o[i] + r * (p[i] - o[i]) / k for i in range(2)])
        c.eqv("normal", lst(s.normal(c.array(p))), g)
    else:
        T = lst(m.tangents_lines(s, c.array(p)))
        for i in range(2):
            w = c.sub(T[i][:2], o)
            c.eq(f"touching point {i} on the circle", c.dot(w, w), r * r)
            c.eq(f"tangent {i} perpendicular to the radius", c.dot(w, c.sub(p, T[i][:2])), 0)
        c.check("two different points", c.Or(*[T[0][j] != T[1][j] for j in range(2)]))


def two_circles(c, rel):
    m = c.mod(CIR)
    o1, o2 = point(c, "a", 2), point(c, "b", 2)
    r1, r2 = c.real("r1", c.q(1, 8), 4), c.real("r2", c.q(1, 8), 4)
    q = dist2(c, o1, o2)
    s, d = r1 + r2, r1 - r2
    if rel == "crossing":
        c.assume(c.And(q <= s * s, q >= d * d, q >= c.q(1, 64)))
    elif rel == "apart":
        c.assume(q > s * s + c.q(1, 64))
    elif rel == "nested":
        c.assume(q + c.q(1, 64) < d * d)
    else:
        for a, b in zip(o1, o2):
            c.assume(a == b)
        c.assume(r1 == r2)
    c.feasible()
    st, v = c.call(m.circle_intersection2d, m.Circle2D(c.array(o1), r1), m.Circle2D(c.array(o2), r2))
    if rel != "crossing":
        c.check("refused", st == "err" and isinstance(v, ValueError), str(v))
        return
    c.check("answered", st == "ok", str(v))
    P = lst(v)
    c.check("two points", len(P) == 2)
    for i in range(2):
        for k, (o, r) in enumerate(((o1, r1), (o2, r2))):
            c.eq(f"point {i} on circle {k}", dist2(c, P[i][:2], o), r * r, 1e-7)
    # the two are mirror images in the line of centres
    w, e = c.sub(P[0][:2], P[1][:2]), c.sub(o2, o1)
    c.eq("mirrored", c.dot(w, e), 0, 1e-7)
    x = [P[0][i] + P[1][i] - 2 * o1[i] for i in range(2)]
    c.eq("midpoint on the line of centres", x[0] * e[1] - x[1] * e[0], 0, 1e-7)


def cases(tier):
    C = []

    def add(name, fn, *a, **k):
        k.setdefault("time_s", 100)
        C.append(Case(name, fn, a, **k))
    for how in ("new", "origin, radius", "radius, origin"):
        add(f"sphere {how}", sphere, how, mods=(PR,))
    for how in ("new", "start", "end", "radius", "start end radius", "radius end start"):
        add(f"implicit cylinder {how} box", cylinder, how, "box", "" if how == "new" else "free place", mods=(PR,))
        for w in ("free axis", "free place"):
            add(f"implicit cylinder {how} distance {w}", cylinder, how, "distance", w, mods=(PR,))
    for how in ("new", "start end radius"):
        for what in ("distance", "box", "gradient"):
            if what == "gradient" and how != "new":
                continue
            for w in ("free axis", "free place") if what == "distance" else ("free place" if what == "box" and how != "new" else "",):
                add(f"tube {how} {what} {w}", tube, how, what, w, mods=(PR,))
    for k in range(len(DIRS)):
        add(f"cylinder along {DIRS[k]}", param_cyl, k, mods=(PR,))
    for dim in (2, 3):
        for op, (hows, _) in OPS.items():
            for how in hows:
                add(f"{dim}D {op} {how}", boolean, dim, op, how, False, mods=(IMP,))
            add(f"{dim}D {op} boxes", boolean, dim, op, hows[0], True, mods=(IMP,))
        for a in OPS:
            for b in OPS:
                add(f"{dim}D {a} then {b}", nested, dim, a, b, mods=(IMP,))
        add(f"{dim}D array of points", many, dim, mods=(IMP,))
        for depth in range((4 if dim == 2 else 3) if tier == "thorough" else (3 if dim == 2 else 1)):
            add(f"{dim}D tree depth {depth} half space", tree, dim, depth, "plane", "tree", mods=(TREE, IMP))
        for depth in (0, 1, 2) if dim == 2 else (0, 1):
            n = min(6 if tier != "thorough" else 8, (2 ** depth + 1) ** dim)
            for api in ("tree", "rebuild", "shape"):
                add(f"{dim}D tree depth {depth} arbitrary corners {api}", tree, dim, depth, n, api, mods=(TREE, IMP))
    for what in ("evaluate", "implicit", "tangents"):
        add(f"circle {what}", circle, what, mods=(CIR,))
    for rel in ("crossing", "apart", "nested", "same"):
        add(f"two circles {rel}", two_circles, rel, mods=(CIR,))
    return C
