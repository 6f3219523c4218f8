from common import *

BOUNDS = "vectors, frames, matrices and boxes with every coordinate symbolic in [-8, 8]; alignment of 3D frames with the source frame orthonormal up to a quarter turn or axis-scaled"
OUTSIDE = ("the values of scipy's Rotation (a rotation about an axis is taken as an unknown matrix, so only what holds for every such matrix is decided); "
           "Matrix3D.set_to_rotate_to, which also goes through it; rounding; mmcore.api.plane and mmcore.api.surface, which cannot be imported")

V, B = "mmcore.api.vectors", "mmcore.api.bbox"


def vals(c, name, n, lo=-8, hi=8):
    return [c.real(f"{name}{i}", lo, hi) for i in range(n)]


def arr(v):
    return lst(v._array)


def algebra(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a, b = vals(c, "a", n), vals(c, "b", n)
    s = c.real("s", -8, 8)
    src = c.array(a)
    u, v = K(src), K(b)
    c.feasible()
    c.eqv("create", arr(K.create(*a)), a)
    for i, nm in enumerate("xyz"[:n]):
        c.eq("component", getattr(u, nm), a[i])
    add, sub, mul, sc = u + v, u - v, u * v, u * s
    c.check("class kept", type(add) is K and type(sub) is K and type(mul) is K and type(sc) is K)
    c.eqv("+", arr(add), [x + y for x, y in zip(a, b)])
    c.eqv("-", arr(sub), [x - y for x, y in zip(a, b)])
    c.eqv("*", arr(mul), [x * y for x, y in zip(a, b)])
    c.eqv("* number", arr(sc), [x * s for x in a])
    c.eqv("operands", arr(u) + arr(v), a + b)
    for op, want in (("+=", [x + y for x, y in zip(a, b)]), ("-=", [x - y for x, y in zip(a, b)]), ("*=", [x * y for x, y in zip(a, b)])):
        w = K(a)
        keep = w
        if op == "+=":
            w += v
        elif op == "-=":
            w -= v
        else:
            w *= v
        c.check(op + " gives the vector", w is keep)
        if w is keep:
            c.eqv(op, arr(w), want)
    for op, want in (("+=", [x + s for x in a]), ("-=", [x - s for x in a]), ("*=", [x * s for x in a])):
        w = K(a)
        keep = w
        if op == "+=":
            w += s
        elif op == "-=":
            w -= s
        else:
            w *= s
        c.check(op + " number gives the vector", w is keep)
        if w is keep:
            c.eqv(op + " number", arr(w), want)
    c.eqv("+ number", arr(u + s), [x + s for x in a])
    c.eqv("- number", arr(u - s), [x - s for x in a])
    w = u.copy()
    c.check("copy", w is not u and type(w) is K)
    c.check("scale", w.scale(s) is True)
    c.eqv("scale", arr(w), [x * s for x in a])
    c.eqv("copy is independent", arr(u), a)
    w = u.copy()
    c.check("subtract succeeds", w.subtract(v) is True)
    c.eqv("subtract", arr(w), [x - y for x, y in zip(a, b)])
    if n == 3:
        w = u.copy()
        c.check("add succeeds", w.add(v) is True)
        c.eqv("add", arr(w), [x + y for x, y in zip(a, b)])
        c.eqv("cross", arr(u.cross(v)), c.cross(a, b))
    c.eq("dot", u.dot(v), c.dot(a, b))
    c.check("set_with_array succeeds", w.set_with_array(b) is True)
    c.eqv("set_with_array", arr(w), b)
    w.x = s
    c.eqv("x=", arr(w), [s] + b[1:])
    u.y = s
    c.eqv("the argument array is not shared", lst(src), a)


def metric(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a = vals(c, "a", n, -4, 4)
    u = K(a)
    c.assume(c.dot(a, a) >= c.q(1, 100))
    c.feasible()
    st, L = c.call(lambda: u.length)
    if st != "ok":
        c.fail("length", str(L))
    else:
        c.eq("length squared", L * L, c.dot(a, a), 1e-9)
        c.check("length", L >= 0)
        c.check("normalize succeeds", u.normalize() is True)
        w = arr(u)
        for i in range(n):
            c.eq("normalize", w[i] * L, a[i], 1e-9)


def parallel(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a = vals(c, "a", n, -4, 4)
    c.assume(c.dot(a, a) >= c.q(1, 100))
    k = c.real("k", -4, 4)
    c.assume(c.Or(k >= c.q(1, 10), k <= c.q(-1, 10)))
    c.feasible()
    c.check("multiples are parallel", K(a).is_parallel(K([k * x for x in a])))


def not_parallel(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a, b = vals(c, "a", n, -4, 4), vals(c, "b", n, -4, 4)
    aa, bb, ab = c.dot(a, a), c.dot(b, b), c.dot(a, b)
    c.assume(aa >= c.q(1, 100))
    c.assume(bb >= c.q(1, 100))
    c.assume(c.abs(ab) <= c.q(19, 20) * (c.sqrt(aa) * c.sqrt(bb)))
    c.lemma("lengths", c.sqrt(aa) * c.sqrt(bb) >= c.q(99, 10000))
    c.feasible()
    c.check("others are not", c.Not(K(a).is_parallel(K(b))))


def perpendicular(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a, b = vals(c, "a", n, -4, 4), vals(c, "b", n, -4, 4)
    d = c.dot(a, b)
    r = K(a).is_perpendicular(K(b))
    if bool(r):
        c.le("perpendicular", c.abs(d), c.q(1, 10 ** 4))
    else:
        c.check("not perpendicular", d != 0)


def equality(c, cls, n):
    m = c.mod(V)
    K = getattr(m, cls)
    a, b = vals(c, "a", n), vals(c, "b", n)
    u, v = K(a), K(b)
    c.check("equal to its copy", u == u.copy())
    c.check("is_equal to its copy", u.is_equal(u.copy()))
    r1, r2 = bool(u == v), bool(u.is_equal(v))
    c.check("is_equal agrees", r1 == r2)
    if r1:
        for x, y in zip(a, b):
            c.le("equal", c.abs(x - y), c.q(1, 1000))
    else:
        c.check("different", c.Or(*[x != y for x, y in zip(a, b)]))


def casts(c):
    m = c.mod(V)
    a = vals(c, "a", 3)
    v3 = m.Vector3D(a)
    c.eqv("3D to 2D", arr(m.Vector2D.cast(v3)), a[:2])
    c.eqv("to_vector2d", arr(v3.to_vector2d()), a[:2])
    c.eqv("2D to 3D", arr(m.Vector3D.cast(m.Vector2D(a[:2]))), a[:2] + [c.num(0)])
    c.eqv("to_vector3d", arr(m.Vector2D(a[:2]).to_vector3d()), a[:2] + [c.num(0)])
    c.eqv("pair to 3D", arr(m.Point3D.cast(a[:2])), a[:2] + [c.num(0)])
    c.eqv("triple to 2D", arr(m.Point2D.cast(a)), a[:2])
    for K in (m.Point3D, m.Vector3D):
        for w in (v3, m.Point3D(a)):
            r = K.cast(w)
            c.check("class", type(r) is K)
            c.eqv("cast", arr(r), a)
    p = v3.as_point()
    c.check("as_point", isinstance(p, m.Point3D))
    c.eqv("as_point", arr(p), a)
    p.x = c.num(77)
    c.eqv("as_point is a new point", arr(v3), a)
    p = m.Vector2D(a[:2]).as_point()
    c.check("as_point 2D", isinstance(p, m.Point2D))
    c.eqv("as_point 2D", arr(p), a[:2])
    t2, t3 = m.Vector2D(a[:2]).to_translation(), v3.to_translation()
    c.eqv("translation 2D", arr(t2.translation), a[:2])
    c.eqv("translation 3D", arr(t3.translation), a)


# ---------------------------------------------------------------- matrices

def K_of(m, n):
    return (m.Matrix2D, m.Vector2D, m.Point2D) if n == 2 else (m.Matrix3D, m.Vector3D, m.Point3D)


def affine(c, name, n, lo=-4, hi=4):
    return [[c.real(f"{name}{i}{j}", lo, hi) for j in range(n + 1)] for i in range(n)] + [[c.num(0)] * n + [c.num(1)]]


def image(A, x, n):
    return [sum_(A[i][j] * x[j] for j in range(n)) + A[i][n] for i in range(n)]


def make(M, A):
    r = M()
    r.set_with_array([x for row in A for x in row])
    return r


def mat(r):
    return [lst(x) for x in r._array]


def basics(c, n):
    m = c.mod(V)
    M, Vc, P = K_of(m, n)
    N = n + 1
    A = [[c.real(f"m{i}{j}", -4, 4) for j in range(N)] for i in range(N)]
    I = [[c.num(1 if i == j else 0) for j in range(N)] for i in range(N)]
    c.eqm("identity", mat(M.create()), I)
    arrA = c.array(A)
    for what, src in (("list", A), ("array", arrA)):
        st, r = c.call(M, src)
        if st != "ok":
            c.fail(f"matrix from a {what}", str(r))
        else:
            c.eqm(f"matrix from a {what}", mat(r), A)
            c.eqm(f"cast of a {what}", mat(M.cast(src)), A)
    c.eqm("the argument", [lst(x) for x in arrA], A)
    r = M()
    c.check("set_with_array", r.set_with_array([x for row in A for x in row]) is True)
    c.eqm("set_with_array", mat(r), A)
    i, j = c.pick("i", N), c.pick("j", N)
    c.eq("get_cell", r.get_cell(i, j), A[i][j])
    q = r.copy()
    x = c.real("x", -4, 4)
    q.set_cell(i, j, x)
    c.eqm("copy is independent", mat(r), A)
    B = [list(row) for row in A]
    B[i][j] = x
    c.eqm("set_cell", mat(q), B)
    q.set_to_identity()
    c.eqm("set_to_identity", mat(q), I)
    t = [c.real(f"t{k}", -4, 4) for k in range(n)]
    q = r.copy()
    q.translation = Vc(t)
    c.eqv("translation", arr(q.translation), t)
    for k in range(n):
        A[k][n] = t[k]
    c.eqm("only the translation", mat(q), A)


def product(c, n):
    m = c.mod(V)
    M, Vc, P = K_of(m, n)
    A, B = affine(c, "a", n), affine(c, "b", n)
    x = vals(c, "x", n, -4, 4)
    ma, mb = make(M, A), make(M, B)
    for K in (Vc, P):
        v = K(x)
        w = ma @ v
        c.check("class", type(w) is K)
        c.eqv("matrix times point", arr(w), image(A, x, n))
        c.eqv("operand", arr(v), x)
        st, r = c.call(v.transform, ma)
        if st != "ok":
            c.fail("transform", str(r))
        else:
            c.check("transform succeeds", r is True)
            c.eqv("transform agrees with @", arr(v), image(A, x, n))
    ab = ma @ mb
    c.eqv("composition", arr(ab @ Vc(x)), image(A, image(B, x, n), n))
    c.eqm("left operand", mat(ma), A)
    c.eqm("right operand", mat(mb), B)
    ma.transform(mb)
    c.eqm("transform in place", mat(ma), mat(ab))


def inverse(c, n):
    m = c.mod(V)
    M, Vc, P = K_of(m, n)
    A = affine(c, "a", n, -2, 2)
    if n == 3:      # shear and scale along the axes, kept triangular for the solver
        A[1][0] = A[2][0] = A[2][1] = c.num(0)
    ma = make(M, A)
    det = c.mod("mmcore.api._base_vectors").BaseMatrix.determinant.fget(ma)
    want = A[0][0] * A[1][1] - A[0][1] * A[1][0] if n == 2 else A[0][0] * A[1][1] * A[2][2]
    c.eq("determinant", det, want, 1e-9)
    c.assume(c.Or(det >= c.q(1, 10), det <= c.q(-1, 10)))
    c.feasible()
    ia = ma.copy()
    c.check("invert", ia.invert() is True)
    x = vals(c, "x", n, -2, 2)
    c.eqv("the inverse undoes", arr(ia @ Vc(image(A, x, n))), x, 1e-7)


def frame(c, n):
    m = c.mod(V)
    M, Vc, P = K_of(m, n)
    o = vals(c, "o", n)
    ax = [vals(c, nm, n) for nm in "xyz"[:n]]
    r = M()
    c.check("set", r.set_with_coordinate_system(P(o), *[Vc(a) for a in ax]) is True)
    got = r.get_as_coordinate_system()
    c.eqv("origin", arr(got[0]), o)
    for i in range(n):
        c.eqv("axis", arr(got[1 + i]), ax[i])
    got[0].x = c.num(55)
    c.eqv("the parts are copies", arr(r.get_as_coordinate_system()[0]), o)
    t = vals(c, "t", n, -2, 2)
    want = [o[k] + sum_(t[i] * ax[i][k] for i in range(n)) for k in range(n)]
    c.eqv("maps local coordinates into the frame", arr(r @ P(t)), want)


def align(c, n):
    m = c.mod(V)
    M, Vc, P = K_of(m, n)
    o, o2 = vals(c, "o", n, -4, 4), vals(c, "p", n, -4, 4)
    if n == 2:
        ax = [vals(c, nm, n, -2, 2) for nm in "xy"]
        d = ax[0][0] * ax[1][1] - ax[0][1] * ax[1][0]
        c.assume(c.Or(d >= c.q(1, 4), d <= c.q(-1, 4)))
    else:
        z = c.num(0)
        k = [c.real(f"k{i}", c.q(1, 4), 4) for i in range(3)]
        ax = [[z, k[0], z], [-k[1], z, z], [z, z, k[2]]]
    bx = [vals(c, "u" + nm, n, -2, 2) for nm in "xyz"[:n]]
    c.feasible()
    r = M()
    st, e = c.call(r.set_to_align_coordinate_systems, P(o), *[Vc(a) for a in ax], P(o2), *[Vc(a) for a in bx])
    if st != "ok":
        c.fail("align", str(e))
        return
    t = vals(c, "t", n, -2, 2)
    at = lambda q, f: [q[k] + sum_(t[i] * f[i][k] for i in range(n)) for k in range(n)]
    c.eqv("maps the one frame to the other", arr(r @ P(at(o, ax))), at(o2, bx), 1e-7)


def rotation2(c, where):
    m = c.mod(V)
    t = c.angle("t", 4)
    r = m.Matrix2D()
    o = vals(c, "o", 2, -4, 4)
    if where == "none":
        o = [c.num(0)] * 2
        c.check("returns", r.set_to_rotation(t) is True)
    elif where == "point":
        c.check("returns", r.set_to_rotation(t, m.Point2D(o)) is True)
    else:
        c.check("returns", r.set_to_rotation(t, c.array(o)) is True)
    c.eqv("the centre stays", arr(r @ m.Point2D(o)), o, 1e-9)
    A = mat(r)
    cs, sn = c.np.cos(t), c.np.sin(t)
    x = vals(c, "x", 2, -2, 2)
    c.eqv("rotates counterclockwise about the centre", arr(r @ m.Point2D([o[0] + x[0], o[1] + x[1]])),
          [o[0] + cs * x[0] - sn * x[1], o[1] + sn * x[0] + cs * x[1]], 1e-9)


def rotate_to(c):
    m = c.mod(V)
    a, b = vals(c, "a", 2, -2, 2), vals(c, "b", 2, -2, 2)
    aa, bb = c.dot(a, a), c.dot(b, b)
    c.assume(aa >= c.q(1, 10))
    c.assume(bb >= c.q(1, 10))
    c.feasible()
    r = m.Matrix2D()
    r.set_to_rotate_to(m.Vector2D(a), m.Vector2D(b))
    w = arr(r @ m.Vector2D(a))
    c.eq("same direction", w[0] * b[1] - w[1] * b[0], c.num(0), 1e-7)
    c.check("not opposite", c.dot(w, b) > 0)
    c.eq("same length", c.dot(w, w), aa, 1e-7)


def rotation3(c):
    """whatever matrix scipy gives for the rotation, the point it goes through stays"""
    m = c.mod(V)
    if type(c).__name__ == "Ctx":
        R = c.array([[c.real(f"r{i}{j}", -1, 1) for j in range(3)] for i in range(3)])

        class Rot:
            @staticmethod
            def from_rotvec(v):
                return Rot()

            def as_matrix(self):
                return R
        m.R = Rot
    o = vals(c, "o", 3, -4, 4)
    ax = [c.num(0), c.num(0), c.num(1)]
    r = m.Matrix3D()
    st, e = c.call(r.set_to_rotation, c.num(30), m.Vector3D(ax), m.Point3D(o))
    if st != "ok":
        c.fail("set_to_rotation", str(e))
        return
    c.eqv("the centre stays", arr(r @ m.Point3D(o)), o, 1e-9)


# ---------------------------------------------------------------- boxes

def box(c, m, name, n):
    lo = vals(c, name + "l", n)
    hi = vals(c, name + "h", n)
    for a, b in zip(lo, hi):
        c.assume(a <= b)
    K, P = (m.BoundingBox2D, m.Point2D) if n == 2 else (m.BoundingBox3D, m.Point3D)
    return K.create(P(lo), P(hi)), lo, hi


def is_box(c, label, b, lo, hi):
    c.eqv(label + " min", arr(b.min), lo)
    c.eqv(label + " max", arr(b.max), hi)


def inside(c, p, lo, hi):
    return c.And(*[c.And(a <= x, x <= b) for x, a, b in zip(p, lo, hi)])


def construct(c, n):
    m = c.mod(B)
    K, P = (m.BoundingBox2D, m.Point2D) if n == 2 else (m.BoundingBox3D, m.Point3D)
    b, lo, hi = box(c, m, "a", n)
    c.feasible()
    is_box(c, "create", b, lo, hi)
    pl, ph = P(lo), P(hi)
    d = K.create_from_min_max_points(pl, ph)
    is_box(c, "create_from_min_max_points", d, lo, hi)
    d.min.x = c.num(99)
    c.eqv("the points are not shared", arr(pl), lo)
    e = b.copy()
    is_box(c, "copy", e, lo, hi)
    e.min.x = c.num(-99)
    is_box(c, "copy is independent", b, lo, hi)
    c.eqv("sizes", lst(b.sizes()), [y - x for x, y in zip(lo, hi)])
    v = b.area() if n == 2 else b.volume()
    w = c.num(1)
    for x, y in zip(lo, hi):
        w = w * (y - x)
    c.eq("measure", v, w)
    c.eqv("centroid", lst(b.centroid), [(x + y) / 2 for x, y in zip(lo, hi)], 1e-9)
    vs = [lst(x) for x in b.to_vertices()]
    c.check("vertex count", len(vs) == 2 ** n)
    for k in range(2 ** n):
        want = [(hi if k >> i & 1 else lo)[i] for i in range(n)]
        c.check("every corner", c.Or(*[c.And(*[x == y for x, y in zip(want, z)]) for z in vs]))
    c.check("cast keeps a box", K.cast(b) is b)
    o = (m.BoundingBox3D if n == 2 else m.BoundingBox2D).cast(b)
    for label, x, y in (("min", o.min, lo), ("max", o.max, hi)):
        c.eqv("cast to the other dimension " + label, arr(x), list(y) + [c.num(0)] if n == 2 else list(y)[:2])


def from_points(c, n, k):
    m = c.mod(B)
    K, P = (m.BoundingBox2D, m.Point2D) if n == 2 else (m.BoundingBox3D, m.Point3D)
    pts = [vals(c, f"p{i}", n) for i in range(k)]
    how = c.pick("how", 3)
    b = (K.create_from_many_points([P(p) for p in pts]) if how == 0 else K(c.array(pts)) if how == 1 else K.cast(pts))
    lo, hi = arr(b.min), arr(b.max)
    for p in pts:
        c.check("covers", inside(c, p, lo, hi))
        c.check("contains", b.contains(P(p)))
    for i in range(n):
        c.check("tight below", c.Or(*[p[i] == lo[i] for p in pts]))
        c.check("tight above", c.Or(*[p[i] == hi[i] for p in pts]))


def contains(c, n):
    m = c.mod(B)
    P = m.Point2D if n == 2 else m.Point3D
    b, lo, hi = box(c, m, "a", n)
    p = vals(c, "p", n)
    r = bool(b.contains(P(p)))
    if r:
        c.check("contains", inside(c, p, lo, hi))
    else:
        c.check("does not contain", c.Not(inside(c, p, lo, hi)))


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


def expand(c, n):
    m = c.mod(B)
    P = m.Point2D if n == 2 else m.Point3D
    b, lo, hi = box(c, m, "a", n)
    p = vals(c, "p", n)
    c.check("expand", b.expand(P(p)) is True)
    is_box(c, "expand", b, [mn(x, y) for x, y in zip(lo, p)], [mx(x, y) for x, y in zip(hi, p)])


def two(c, n, what):
    m = c.mod(B)
    a, al, ah = box(c, m, "a", n)
    b, bl, bh = box(c, m, "b", n)
    c.feasible()
    if what == "tests":
        apart = c.Or(*[c.Or(ah[i] < bl[i], bh[i] < al[i]) for i in range(n)])
        r, o, s = bool(a.intersects(b)), bool(a.overlap(b)), bool(b.intersects(a))
        c.check("overlap agrees", r == o and r == s)
        c.check("disjoint" if not r else "common point", c.Not(apart) if r else apart)
        return
    if what == "combine":
        c.check("combine", a.combine(b) is True)
        is_box(c, "combine", a, [mn(x, y) for x, y in zip(al, bl)], [mx(x, y) for x, y in zip(ah, bh)])
        is_box(c, "other", b, bl, bh)
        return
    if what == "union":
        u = a.union(b)
        is_box(c, "union", u, [mn(x, y) for x, y in zip(al, bl)], [mx(x, y) for x, y in zip(ah, bh)])
        is_box(c, "first", a, al, ah)
        is_box(c, "second", b, bl, bh)
        return
    st, r = c.call(a.intersection, b)
    if st != "ok":
        c.fail("intersection", str(r))
        return
    apart = c.Or(*[c.Or(ah[i] < bl[i], bh[i] < al[i]) for i in range(n)])
    if r is None:
        c.check("no common point", apart)
        return
    c.check("common point", c.Not(apart))
    is_box(c, "intersection", r, [mx(x, y) for x, y in zip(al, bl)], [mn(x, y) for x, y in zip(ah, bh)])
    r.min.x = c.num(99)
    is_box(c, "first", a, al, ah)
    is_box(c, "second", b, bl, bh)


def cases(tier):
    out = []
    mods = ("mmcore.api._base_vectors", V)
    for cls, n in (("Vector2D", 2), ("Vector3D", 3), ("Point2D", 2), ("Point3D", 3)):
        out.append(Case(f"algebra {cls}", algebra, (cls, n), mods=mods))
    for cls, n in (("Vector2D", 2), ("Vector3D", 3)):
        out.append(Case(f"length {cls}", metric, (cls, n), mods=mods))
        out.append(Case(f"parallel {cls}", parallel, (cls, n), mods=mods))
        out.append(Case(f"not parallel {cls}", not_parallel, (cls, n), mods=mods))
        out.append(Case(f"perpendicular {cls}", perpendicular, (cls, n), mods=mods))
        out.append(Case(f"equality {cls}", equality, (cls, n), mods=mods))
    out.append(Case("casts", casts, mods=mods))
    for n in (2, 3):
        out.append(Case(f"matrix basics {n}D", basics, (n,), mods=mods))
        out.append(Case(f"matrix product {n}D", product, (n,), mods=mods))
        out.append(Case(f"matrix inverse {n}D", inverse, (n,), mods=mods))
        out.append(Case(f"frame {n}D", frame, (n,), mods=mods))
        out.append(Case(f"align {n}D", align, (n,), mods=mods))
    for w in ("none", "point", "array"):
        out.append(Case(f"rotation 2D {w}", rotation2, (w,), mods=mods))
    out.append(Case("rotate to 2D", rotate_to, mods=mods))
    out.append(Case("rotation 3D", rotation3, mods=mods))
    bm = mods + (B,)
    for n in (2, 3):
        out.append(Case(f"box construct {n}D", construct, (n,), mods=bm))
        for k in ((1, 3) if tier == "quick" else (1, 3, 4)):
            out.append(Case(f"box of {k} points {n}D", from_points, (n, k), mods=bm, time_s=300))
        out.append(Case(f"box contains {n}D", contains, (n,), mods=bm))
        out.append(Case(f"box expand {n}D", expand, (n,), mods=bm))
        for w in ("tests", "combine", "union", "intersection"):
            out.append(Case(f"boxes {w} {n}D", two, (n, w), mods=bm, time_s=400, paths=20000))
    return out
