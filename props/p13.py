from common import *

VEC, PLN, CPL, CP, GV, PP = ("mmcore.numeric.vectors", "mmcore.numeric.plane", "mmcore.numeric.plane.cplane", "mmcore.numeric.closest_point", "mmcore.geom.vec",
                             "mmcore.numeric.intersection.pp")
BOUNDS = ("vectors of 2-4 components and arrays of up to 3 of them with every component symbolic in [-8,8]; planes with a symbolic origin and an orthonormal frame given by a symbolic "
          "rotation (all but half turns) or, where only the normal counts, any normal; determinants at least 1/64 in absolute value")
OUTSIDE = "nearly parallel planes, rounding"


def vec(c, nm, n, lo=-8, hi=8):
    return [c.real(f"{nm}{i}", lo, hi) for i in range(n)]


def arr(c, nm, k, n):
    return [vec(c, f"{nm}{i}_", n) for i in range(k)]


def frame(c, nm, origin=True, fixed=None):
    """origin and orthonormal right-handed axes from a rotation"""
    if fixed is None:
        a, b, d = (c.real(f"{nm}q{i}", -3, 3) for i in range(3))
    else:
        a, b, d = [(c.num(0), c.num(0), c.num(0)), (c.q(1, 2), c.q(-1, 3), c.q(3, 4)), (c.num(1), c.num(1), c.num(1))][fixed]
    n = 1 + a * a + b * b + d * d
    X = [(1 + a * a - b * b - d * d) / n, 2 * (a * b + d) / n, 2 * (a * d - b) / n]
    Y = [2 * (a * b - d) / n, (1 - a * a + b * b - d * d) / n, 2 * (b * d + a) / n]
    Z = [2 * (a * d + b) / n, 2 * (b * d - a) / n, (1 - a * a - b * b + d * d) / n]
    O = vec(c, nm + "o", 3) if origin else [c.num(0)] * 3
    return [O, X, Y, Z]


def plane_of(c, nm, normal):
    """a plane of which only origin and normal matter; the axes are left arbitrary numbers"""
    O = vec(c, nm + "o", 3)
    return [O, [c.num(7)] * 3, [c.num(-5)] * 3, normal]


def det3(a, b, c_):
    return (a[0] * (b[1] * c_[2] - b[2] * c_[1]) - a[1] * (b[0] * c_[2] - b[2] * c_[0]) + a[2] * (b[0] * c_[1] - b[1] * c_[0]))


def apart(c, x, g=(1, 64)):
    c.assume(c.Or(x <= -c.q(*g), x >= c.q(*g)))


def add(a, b, t=1):
    return [x + t * y for x, y in zip(a, b)]


def isunit(c, label, v):
    c.eq(label, c.dot(v, v), 1)


def products(c, k, n):
    m = c.mod(VEC)
    A, B = arr(c, "a", k, n), arr(c, "b", k, n)
    a, b = c.array(A), c.array(B)
    c.feasible()
    D = [c.dot(x, y) for x, y in zip(A, B)]
    c.eqv("dot", lst(m.dot(a, b)), D)
    c.eqv("dot_array_x_array", lst(m.dot_array_x_array(a, b)), D)
    c.eqv("dot_array_x_vec", lst(m.dot_array_x_vec(a, b[0])), [c.dot(x, B[0]) for x in A])
    c.eqv("dot_vec_x_array", lst(m.dot_vec_x_array(a[0], b)), [c.dot(A[0], y) for y in B])
    for i in range(k):
        c.eq("scalar_dot", m.scalar_dot(a[i], b[i]), D[i])
        q = m.scalar_norm(a[i])
        c.eq("norm squared", q * q, c.dot(A[i], A[i]))
        c.check("norm positive", q >= 0)
    N = lst(m.norm(a))
    for i in range(k):
        c.eq("array norm squared", N[i] * N[i], c.dot(A[i], A[i]))
    if n == 3:
        R = lst(m.cross(a, b))
        for i in range(k):
            c.eqv("cross", R[i], c.cross(A[i], B[i]))
            c.eqv("scalar_cross", lst(m.scalar_cross(a[i], b[i])), c.cross(A[i], B[i]))
    c.eqm("arguments unchanged", lst(a), A)
    c.eqm("arguments unchanged", lst(b), B)


def matmul(c, l, r, s, t):
    m = c.mod(VEC)
    A = [arr(c, f"a{i}", r, s) for i in range(l)]
    B = [arr(c, f"b{i}", s, t) for i in range(l)]
    c.feasible()
    R = lst(m.matmul_array(c.array(A), c.array(B)))
    for w in range(l):
        for i in range(r):
            for j in range(t):
                c.eq("product", R[w][i][j], sum_([A[w][i][k] * B[w][k][j] for k in range(s)]))


def units(c, k, n):
    m = c.mod(VEC)
    A = arr(c, "a", k, n)
    for x in A:
        c.assume(c.dot(x, x) >= c.q(1, 64))
    c.feasible()
    U = lst(m.unit(c.array(A)))
    for i in range(k):
        u = lst(m.scalar_unit(c.array(A[i])))
        for v in (U[i], u):
            isunit(c, "length one", v)
            c.check("same direction", c.dot(v, A[i]) > 0)
            for p in range(n):
                for q in range(p):
                    c.eq("parallel", v[p] * A[i][q], v[q] * A[i][p])
    w = c.array(A[0])
    c.check("returns 1", m.scalar_normalize(w) == 1)
    isunit(c, "in place", lst(w))
    c.eqv("in place", lst(w), lst(m.scalar_unit(c.array(A[0]))))
    z = c.array([0] * n)
    c.check("zero vector refused", m.scalar_normalize(z) == 0)
    c.eqv("zero vector unchanged", lst(z), [0] * n)


def gram(c, k):
    m = c.mod(VEC)
    F = frame(c, "f", False)
    B = arr(c, "b", k, 3)
    c.feasible()
    U = [F[1 + i] for i in range(k)]
    R = lst(m.gram_schmidt(c.array(U), c.array(B)))
    for i in range(k):
        want = add(B[i], U[i], -c.dot(B[i], U[i]))
        c.eqv("rejection", R[i], want)
        out = c.array([0] * 3)
        m.scalar_gram_schmidt(c.array(U[i]), c.array(B[i]), out)
        c.eqv("scalar rejection", lst(out), want)


def solve(c, how):
    m = c.mod(VEC)
    A = arr(c, "a", 2, 2)
    y = vec(c, "y", 2)
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    if how == "singular":
        c.assume(d == 0)
        c.feasible()
        out = c.array([5, 7])
        c.check("refused", not m.solve2x2(c.array(A), c.array(y), out))
        c.eqv("result untouched", lst(out), [5, 7])
        r, s = m.invert_jacobian(c.array(A))
        c.check("status", s == -1)
        return
    apart(c, d)
    c.feasible()
    out = c.array([0, 0])
    c.check("solved", bool(m.solve2x2(c.array(A), c.array(y), out)))
    x = lst(out)
    for i in range(2):
        c.eq("equation", A[i][0] * x[0] + A[i][1] * x[1], y[i])
    J, s = m.invert_jacobian(c.array(A))
    c.check("status", s == 0)
    J = lst(J)
    for i in range(2):
        for j in range(2):
            c.eq("inverse", A[i][0] * J[0][j] + A[i][1] * J[1][j], int(i == j))
    if how == "array":
        J, s = m.invert_jacobian(c.array([A, [[0, 1], [1, 0]], [[1, 2], [2, 4]]]))
        c.check("statuses", [int(v) for v in s] == [0, 0, -1])
        c.eqm("second inverse", lst(J)[1], [[0, 1], [1, 0]])


def decompose(c, k):
    m = c.mod(VEC)
    a, b = vec(c, "a", 3), vec(c, "b", 3)
    x = arr(c, "x", k, 2)
    g = c.cross(a, b)
    c.assume(c.dot(g, g) >= c.q(1, 64))
    c.feasible()
    V = [add([t * p for p in a], b, s) for t, s in x]
    n = vec(c, "h", 1)[0]
    V = [add(v, g, n) for v in V]  # the part across the plane is dropped
    R = lst(m.decompose_vectors(c.array(V), c.array(a), c.array(b)))
    for v, r, w in zip(V, R, x):
        c.eqv("coefficients", r, w)
        c.eqv("single", lst(m.decompose_vector(c.array(v), c.array(a), c.array(b))), w)


def projections(c, what):
    a, b, p = vec(c, "a", 3), vec(c, "b", 3), vec(c, "p", 3)
    d = b if what in ("vector", "ray", "ray py") else c.sub(b, a)
    c.assume(c.dot(d, d) >= c.q(1, 64))
    c.feasible()
    A, B, P = c.array(a), c.array(b), c.array(p)
    if what == "vector":
        r = lst(c.mod(VEC).vector_projection(P, B))
        c.eqv("parallel", c.cross(r, b), [0, 0, 0])
        c.eq("rest is perpendicular", c.dot(c.sub(p, r), b), 0)
        return
    if what == "ray":
        r = lst(c.mod(VEC).closest_point_on_ray(A, B, P))
    elif what == "ray py":
        r = lst(c.mod(CP).closest_point_on_ray((A, B), P))
    elif what == "line":
        r = lst(c.mod(VEC).closest_point_on_line(A, B, P))
    elif what == "pp":
        r = lst(c.mod(PP)._closest_point_on_line((A, B), P))
    else:
        r = lst(c.mod(CP).closest_point_on_line((A, B), P))
    c.eqv("on the line", c.cross(c.sub(r, a), d), [0, 0, 0])
    c.eq("foot of the perpendicular", c.dot(c.sub(p, r), d), 0)


def support(c, k, j):
    m = c.mod(VEC)
    V, D = arr(c, "v", k, 3), arr(c, "d", j, 3)
    c.feasible()
    R = lst(m.multi_support_vector(c.array(V), c.array(D)))
    for d, r in zip(D, R):
        s = lst(m.support_vector(c.array(V), c.array(d)))
        for x in (r, s):
            c.check("one of the vertices", c.Or(*[c.And(*[x[i] == v[i] for i in range(3)]) for v in V]))
            for v in V:
                c.check("extreme", c.dot(x, d) >= c.dot(v, d))


def orientation(c, k):
    m = c.mod(VEC)
    P = arr(c, "p", k, 2)
    c.feasible()
    d = m.det(c.array(P))
    c.eq("shoelace sum", d, sum_([(P[i + 1][0] - P[i][0]) * (P[i + 1][1] + P[i][1]) for i in range(k - 1)]))
    r = m.points_order(c.array(P))
    c.check("order", d > 0 if r == 0 else (d < 0 if r == 1 else d == 0))
    Q = [[1, 0], [0, 1], [0, 0], [1, 0]]
    c.check("several", list(m.multi_points_order([c.array(P), c.array(Q)])) == [r, m.points_order(c.array(Q))])


def normal4(c):
    m = c.mod(VEC)
    P = arr(c, "p", 4, 3)
    c.feasible()
    n = lst(m.normal_from_4pt(*[c.array(x) for x in P]))
    c.eqv("cross of the diagonals", n, c.cross(c.sub(P[2], P[0]), c.sub(P[3], P[1])))


def orthonormal(c, rot):
    m = c.mod(GV)
    F = frame(c, "f", False, rot)
    s = c.real("s", c.q(1, 8), 8)
    u = [s * x for x in F[1]]
    a, b = c.real("a", -4, 4), c.real("b", c.q(1, 8), 4)
    v = add([a * x for x in F[1]], F[2], b)
    e, f, g = c.real("e", -4, 4), c.real("f", -4, 4), c.real("g", c.q(1, 8), 4)
    w = add(add([e * x for x in F[1]], F[2], f), F[3], g)
    c.feasible()
    U, V, W = c.array(u), c.array(v), c.array(w)
    r = [lst(x) for x in m.orthonormalize(U, V, W)]
    for i in range(3):
        c.eqv("axis", r[i], F[1 + i])
    for x, y in ((U, u), (V, v), (W, w)):
        c.eqv("arguments unchanged", lst(x), y)


def local(c, k):
    m = c.mod(PLN)
    F = frame(c, "f")
    P = arr(c, "p", k, 3)
    c.feasible()
    f = c.array(F)
    world = [add(add(add(F[0], F[1], p[0]), F[2], p[1]), F[3], p[2]) for p in P]
    c.eqm("array", lst(m.evaluate_plane_arr(f, c.array(P))), world)
    back = lst(m.inverse_evaluate_plane_arr(f, c.array(world)))
    c.eqm("array back", back, P)
    for p, w in zip(P, world):
        c.eqv("point", lst(m.evaluate_plane(f, c.array(p))), w)
        c.eqv("point back", lst(m.inverse_evaluate_plane(f, c.array(w))), p)
        c.eq("distance", m.distance(f, c.array(w)), c.abs(p[2]))
        c.eqv("projection", lst(m.project(f, c.array(w))), add(w, F[3], -p[2]))
        c.eqv("projection by normal", lst(m.project_point_by_normal(c.array(w), c.array(F[3]), c.array(F[0]))), add(w, F[3], -p[2]))


def from_points(c):
    m = c.mod(PLN)
    P = arr(c, "p", 3, 3)
    n = c.cross(c.sub(P[1], P[0]), c.sub(P[2], P[0]))
    c.assume(c.dot(n, n) >= c.q(1, 16))
    c.feasible()
    eq = lst(m.plane_eq_from_pts(*[c.array(x) for x in P]))
    c.eqv("normal of the equation", eq[:3], n)
    for p in P:
        c.eq("equation holds", c.dot(eq[:3], p) + eq[3], 0)
    x = vec(c, "x", 3)
    c.eqv("signed distance", lst(m.plane_signed_distance(eq, c.array([x]))), [c.dot(eq[:3], x) + eq[3]])


def from_points_frame(c, k):
    """frame through three points: triangle in the plane of two coordinates, pushed around by a rotation of a quarter turn"""
    m = c.mod(PLN)
    o, L, a, b = vec(c, "o", 3), c.real("L", c.q(1, 4), 4), c.real("a", -4, 4), c.real("b", c.q(1, 4), 4)
    ax = [[c.num(0)] * 3 for _ in range(3)]
    for i in range(3):
        ax[i][(i + k) % 3] = c.num(1)
    P = [o, add(o, ax[0], L), add(add(o, ax[0], a), ax[1], b)]
    c.feasible()
    f, eq = m.plane_from_3pt(*[c.array(x) for x in P])
    c.eqm("frame", lst(f), [o] + ax)
    r, N = m.plane_from_eq(eq)
    r, N = lst(r), lst(N)
    c.eqv("normal", N, ax[2])
    c.eq("origin on the plane", c.dot(c.sub(r, o), N), 0)


def from_normal(c, how):
    m = c.mod(PLN)
    o, n = vec(c, "o", 3), vec(c, "n", 3)
    s = c.real("s", c.q(1, 8), 8)
    if how == "normal2":
        c.assume(c.And(c.dot(n, n) >= c.q(1, 8), n[0] * n[0] + n[1] * n[1] >= c.q(1, 8)))
    elif how == "vertical":
        n = [c.num(0), c.num(0), s]
    elif how == "down":
        n = [c.num(0), c.num(0), -s]
    else:
        F = frame(c, "f", False)
        n = F[3]
        w = c.dot(o, n)
        p = add(o, n, -w)
        c.assume(c.dot(p, p) >= c.q(1, 8))
    c.feasible()
    if how == "origin":
        r = lst(m.plane_from_normal_origin(c.array(n), c.array(o)))
    else:
        r = lst(m.plane_from_normal2(c.array(o), c.array(n)))
    c.eqv("origin", r[0], o)
    for i in (1, 2, 3):
        isunit(c, "unit axis", r[i])
        for j in range(1, i):
            c.eq("orthogonal axes", c.dot(r[i], r[j]), 0)
    c.eqv("right-handed", c.cross(r[1], r[2]), r[3])
    c.eqv("parallel to the normal", c.cross(r[3], n), [0, 0, 0])
    c.check("side of the normal", c.dot(r[3], n) > 0)


def three_planes(c, how, sparse):
    m = c.mod(PLN) if how != "pp" else c.mod(PP)
    N = arr(c, "n", 3, 3)
    for i, j in sparse:
        N[i][j] = c.num(0)
    O = arr(c, "o", 3, 3)
    apart(c, det3(*N))
    c.feasible()
    if how == "points":
        x = lst(m.plane_plane_plane_intersect_points_and_normals(*[c.array(v) for p in zip(O, N) for v in p]))
    else:
        x = lst((m.plane_plane_plane_intersect if how == "planes" else m._plane_plane_plane_intersect)(*[c.array([o, [7] * 3, [5] * 3, n]) for o, n in zip(O, N)]))
    for o, n in zip(O, N):
        c.eq("on the plane", c.dot(c.sub(x, o), n), 0)


def two_planes(c, how, sparse):
    m = c.mod(CPL)
    N = arr(c, "n", 2, 3)
    for i, j in sparse:
        N[i][j] = c.num(0)
    O = arr(c, "o", 2, 3)
    d = c.cross(*N)
    c.assume(c.dot(d, d) >= c.q(1, 64))
    c.feasible()
    P = [c.array([o, [7] * 3, [5] * 3, n]) for o, n in zip(O, N)]
    if how == "normals":
        r = lst(m.plane_plane_normal_intersect(*[c.array(v) for p in zip(O, N) for v in p]))
    elif how == "pp":
        r = [lst(x) for x in c.mod(PP)._plane_plane_intersect(*P)]
    elif how == "many":
        np = c.np
        rs = [lst(x) for x in (m.planes_plane_intersect(np.array([P[0], P[0]]), P[1]), m.planes_planes_intersect(np.array([P[0]]), np.array([P[1]])),
                               m.plane_plane_intersection(np.array([P[0], P[0]]), P[1]), m.plane_plane_intersection(np.array([P[0]]), np.array([P[1]])),
                               [m.plane_plane_intersection(P[0], P[1])], m.plane_plane_intersection(P[0], np.array([P[1]])),
                               lst(m.plane_plane_intersection(np.array([[P[0]]]), np.array([[P[1]]])))[0])]
        for k in rs:
            for x in k:
                line(c, x, O, N, d)
        return
    else:
        r = lst(m.plane_plane_intersect(*P))
    line(c, r, O, N, d)


def line(c, r, O, N, d):
    for o, n in zip(O, N):
        c.eq("point on the plane", c.dot(c.sub(r[0], o), n), 0)
    c.eqv("direction", c.cross(r[1], d), [0, 0, 0])
    c.check("non-zero direction", c.dot(r[1], r[1]) > 0)


def ray_plane(c, how, rot=None):
    m = c.mod(CPL)
    p, q = (c.mod(PLN), c.mod(PP)) if how in ("line", "pp", "wrapper") else (None, None)
    if how == "param":
        F = frame(c, "f", True, rot)
    else:
        F = plane_of(c, "f", vec(c, "n", 3))
    o, d = vec(c, "r", 3), vec(c, "d", 3)
    k = c.dot(d, F[3])
    g = c.dot(c.sub(F[0], o), F[3])
    kind = ("crossing", "parallel")[c.pick("kind", 2)]
    if kind == "parallel":
        c.assume(k == 0)
    else:
        apart(c, k)
    c.feasible()
    R = c.array([o, d])
    if how == "ray":
        r = m.ray_plane_intersection(c.array([F[0], F[3]]), R)
    elif how == "wrapper":
        r = p.plane_ray_intersection(c.array(F), R)
        s = p.plane_ray_intersection(c.array([F[0], F[3]]), R)
        c.check("both forms", (r is None) == (s is None))
    elif how == "param":
        r = m.ray_plane_parametric_intersection(c.array(F), R)
        if r is not None:
            r, uv = r
            c.eqv("parameters", add(add(F[0], F[1], uv[0]), F[2], uv[1]), lst(r))
    else:
        r = (p.plane_line_intersection if how == "line" else q._plane_line_intersect)(c.array(F), (c.array(o), c.array(d)))
        c.check("a line meets the plane unless parallel", (r is None) == (kind == "parallel"))
    if kind == "parallel":
        c.check("parallel", r is None)
        return
    ahead = g * k >= 0
    if how in ("ray", "wrapper", "param"):
        c.check("met exactly if ahead", ahead if r is not None else c.Not(ahead))
    if r is not None:
        r = lst(r)
        c.eq("on the plane", c.dot(c.sub(r, F[0]), F[3]), 0)
        c.eqv("on the ray", c.cross(c.sub(r, o), d), [0, 0, 0])


def conversions(c, what):
    """spherical (radius, polar angle, azimuth) and cylindrical (radius, azimuth, height) coordinates, both ways"""
    m = c.mod(VEC)
    if what in ("spherical", "cylindrical"):
        r, z = c.real("r", 0, 8), c.real("z", -8, 8)
        t, p = c.angle("t"), c.angle("p")
        c.feasible()
        if what == "spherical":
            x = lst(m.spherical_to_cartesian(c.array([[r, t, p]])))[0]
            c.eqv("point", lst(x), [r * c.np.sin(t) * c.np.cos(p), r * c.np.sin(t) * c.np.sin(p), r * c.np.cos(t)])
        else:
            x = lst(m.cylindrical_to_xyz(c.array([[r, p, z]])))[0]
            c.eqv("point", lst(x), [r * c.np.cos(p), r * c.np.sin(p), z])
        return
    X = vec(c, "x", 3)
    c.assume(X[0] * X[0] + X[1] * X[1] >= c.q(1, 64))
    c.feasible()
    if what == "to spherical":
        s = m.cartesian_to_spherical(c.array([X]))
        r = lst(s)[0][0]
        c.check("radius", r >= 0)
        c.eq("radius squared", r * r, c.dot(X, X))
        c.eqv("and back", lst(lst(m.spherical_to_cartesian(s))[0]), X, "1e-9")
    else:
        s = m.courtesan_to_cylindrical(c.array([X]))
        r = lst(s)[0][0]
        c.check("radius", r >= 0)
        c.eq("radius squared", r * r, X[0] * X[0] + X[1] * X[1])
        c.eqv("and back", lst(lst(m.cylindrical_to_xyz(s))[0]), X, "1e-9")


def closeness(c):
    m = c.mod(VEC)
    a, b = c.real("a", -8, 8), c.real("b", -8, 8)
    at, rt = c.real("atol", 0, 1), c.real("rtol", 0, 1)
    c.feasible()
    w = c.abs(a - b) <= at + rt * c.abs(b)
    c.check("close", w if bool(m.is_close(a, b, at, rt)) else c.Not(w))
    w = c.abs(a) <= at
    c.check("close to 0", w if bool(m.is_close(a, 0.0, at, rt)) else c.Not(w))


def wrappers(c, n):
    g = c.mod(GV)
    a, b = vec(c, "a", n), vec(c, "b", n)
    k = c.real("k", -8, 8)
    c.assume(c.dot(b, b) >= c.q(1, 16))
    c.feasible()
    A, B = c.array(a), c.array(b)
    nn = g.norm(A)
    c.check("norm", nn >= 0)
    c.eq("norm squared", nn * nn, c.dot(a, a))
    c.eq("norm_sq", g.norm_sq(A), c.dot(a, a))
    c.eq("dot", g.dot(A, B), c.dot(a, b))
    d = g.dist(A, B)
    D = c.sub(a, b)
    c.check("distance", d >= 0)
    c.eq("distance squared", d * d, c.dot(D, D))
    p, nb = g.projection_length(A, B), g.norm(B)
    c.eq("length of the projection", p * nb, c.dot(a, b))
    c.eqv("scaled", lst(g.scale_vector(A, k)), [x * k for x in a])
    c.eqv("sum", lst(g.add_multiply_vectors(A, B)), add(a, b))
    u = lst(g.unit(B))
    c.eq("unit", c.dot(u, u), 1)
    c.eqv("same direction", [x * nb for x in u], b)
    if n == 3:
        c.eqv("cross", lst(g.cross(A, B)), c.cross(a, b))
    else:
        for f in (g.perp2d, lambda v: g.make_perpendicular(v, B)):
            c.eqv("a quarter turn", lst(f(A)), [-a[1], a[0]])


def rows(c):
    """the wrappers on arrays of vectors"""
    g = c.mod(GV)
    a = arr(c, "a", 2, 3)
    for x in a:
        c.assume(c.dot(x, x) >= c.q(1, 16))
    c.feasible()
    n = lst(g.norm(c.array(a)))
    for x, y in zip(n, a):
        c.check("norm", x >= 0)
        c.eq("norm squared", x * x, c.dot(y, y))
    for x, y, z in zip(lst(g.unit(c.array(a))), a, n):
        c.eqv("unit", [t * z for t in lst(x)], y)


def plane_vectors(c, what):
    g = c.mod(GV)
    if what == "rotation":
        t = c.angle("t")
        c.feasible()
        r = lst(g.rotate_matrix(t))
        s, k = c.np.sin(t), c.np.cos(t)
        for i, w in enumerate(([k, -s, 0], [s, k, 0], [0, 0, 1])):
            c.eqv("row", lst(r[i]), w)
        return
    a, b = vec(c, "a", 2), vec(c, "b", 2)
    if what == "box":
        lo, hi = vec(c, "l", 2), vec(c, "h", 2)
        c.assume(c.And(lo[0] < hi[0], lo[1] < hi[1]))
        c.feasible()
        x = lst(g.clamp(c.array(a), c.array(lo), c.array(hi)))
        for i in range(2):
            c.check("inside", c.And(lo[i] <= x[i], x[i] <= hi[i]))
            c.check("unchanged unless outside", c.Or(x[i] == a[i], c.And(a[i] < lo[i], x[i] == lo[i]), c.And(a[i] > hi[i], x[i] == hi[i])))
        return


def orthogonal(c, i):
    g = c.mod(GV)
    a = [[c.num(2), c.num(0), c.num(0)], [c.num(1), c.num(-2), c.num(2)], [c.num(0), c.num(3), c.num(-4)]][i]
    b = vec(c, "b", 3)
    x = c.cross(a, b)
    c.assume(c.dot(x, x) >= c.q(1, 16))
    c.feasible()
    for f in (g.gram_schmidt, g.make_perpendicular):
        r = lst(f(c.array(a), c.array(b)))
        c.eq("perpendicular to the first", c.dot(r, a), 0)
        c.eq("in their plane", c.dot(r, x), 0)
        c.check("on the side of the second", c.dot(r, b) > 0)


def angles(c, how):
    """angle between unit vectors given by half angles, between points by their distances"""
    g = c.mod(GV)
    ma = c.np
    if how == "unit":
        p, q = c.angle("p"), c.angle("q")
        c.feasible()
        A, B = [ma.cos(p), ma.sin(p)], [ma.cos(q), ma.sin(q)]
        c.assume(c.And(-1 < c.dot(A, B), c.dot(A, B) < 1))
        t = g.angle(c.array(A), c.array(B))
        c.check("range", c.And(0 <= t, t <= c.q(22, 7)))
        c.eq("cosine", ma.cos(t), c.dot(A, B), "1e-9")
    else:
        P, Q = vec(c, "p", 3), vec(c, "q", 3)
        O = [c.num(1), c.num(-2), c.num(0)]
        u, v = c.sub(P, O), c.sub(Q, O)
        c.assume(c.dot(u, u) >= c.q(1, 4))
        c.assume(c.dot(v, v) >= c.q(1, 4))
        x = c.cross(u, v)
        c.assume(c.dot(x, x) >= c.q(1, 4))
        c.feasible()
        d = g.dot3pt(c.array(P), c.array(O), c.array(Q))
        k = c.dot(u, v)
        c.check("sign", c.And(c.Implies(d > 0, k > 0), c.Implies(d < 0, k < 0)))
        c.eq("cosine", d * d * c.dot(u, u) * c.dot(v, v), k * k, "1e-6")


def frames(c, how, fixed):
    """world and local coordinates of planes given as objects and as arrays"""
    p = c.mod(PLN)
    F = frame(c, "f", fixed=fixed)
    x = vec(c, "x", 3)
    c.feasible()

    class Plane:
        pass
    o = Plane()
    o.origin, o.xaxis, o.yaxis, o.zaxis = (c.array(v) for v in F)
    w = add(add(add(F[0], F[1], x[0]), F[2], x[1]), F[3], x[2])
    P = {"object": o, "array": c.array(F)}.get(how)
    if P is None:
        c.eqv("the world itself", lst(p.local_to_world(c.array(x))), x)
        return
    c.eqv("to world", lst(p.local_to_world(c.array(x), P)), w)
    c.eqv("to local", lst(p.world_to_local(c.array(w), P)), x)


def circle(c, k):
    """the point at an angle on the unit circle around the origin in the plane of a normal"""
    p = c.mod(PLN)
    nr = [[c.num(1), c.num(2), c.num(-2)], [c.num(3), c.num(0), c.num(4)], [c.num(0), c.num(-1), c.num(0)]][k]
    o = vec(c, "o", 3)
    t = c.angle("t")
    c.feasible()
    r = c.sub(lst(p.arbitrary(t, c.array(nr), c.array(o))), o)
    c.eq("in the plane", c.dot(r, nr), 0, "1e-9")
    c.eq("at distance 1", c.dot(r, r), 1, "1e-9")


def cases(tier):
    q = tier == "quick"
    out = []

    def A(nm, fn, *a, mods=(VEC,), **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=mods, **k))
    for k, n in ((1, 2), (1, 3), (2, 3), (3, 4)):
        A("products", products, k, n)
    for s in ((1, 1, 1, 1), (2, 2, 3, 2), (1, 3, 2, 1)):
        A("matmul", matmul, *s)
    for k, n in ((1, 2), (2, 3)):
        A("unit", units, k, n)
    A("gram", gram, 1)
    A("gram", gram, 2)
    for h in ("regular", "singular", "array"):
        A("solve", solve, h)
    A("decompose", decompose, 1)
    A("decompose", decompose, 2)
    for h in ("vector", "ray", "ray py", "line", "line py", "pp"):
        A("project", projections, h, mods=(VEC, CP, PP))
    A("support", support, 3, 1)
    A("support", support, 2, 2)
    if not q:
        A("support", support, 4, 1)
        A("support", support, 3, 2)
    A("orientation", orientation, 3)
    A("orientation", orientation, 4)
    A("normal4", normal4)
    for r in range(3):
        A("orthonormalize", orthonormal, r, mods=(GV,))
    A("local", local, 1, mods=(PLN,))
    A("local", local, 2, mods=(PLN,))
    A("from points", from_points, mods=(PLN,))
    for k in range(3):
        A("frame from points", from_points_frame, k, mods=(PLN,))
    for h in ("normal2", "vertical", "down", "origin"):
        A("from normal", from_normal, h, mods=(PLN,))
    Z = [(), ((0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)), ((0, 0), (1, 1), (2, 2)), ((0, 0), (1, 0)), ((1, 0), (2, 0)), ((0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (2, 2))]
    for h in ("planes", "points"):
        for z in Z:
            A("three planes", three_planes, h, z, mods=(PLN,), weight=4)
    Z2 = [((0, 0), (0, 1), (1, 0), (1, 2)), ((0, 1), (0, 2), (1, 0), (1, 2)), ((0, 0), (1, 1)), ((0, 0), (1, 0)), ((0, 2), (1, 1))] + ([] if q else [(), ((0, 0),)])
    for h in ("planes", "normals", "pp"):
        for z in Z2:
            A("two planes", two_planes, h, z, mods=(CPL, PP), weight=6)
    A("two planes", two_planes, "many", ((0, 0), (0, 1), (1, 0), (1, 2)), mods=(CPL,))
    for h, r in [(h, None) for h in ("ray", "wrapper", "line", "pp")] + [("param", i) for i in range(3)]:
        A("ray plane", ray_plane, h, r, mods=(CPL, PLN, PP))
    for h in ("spherical", "cylindrical", "to spherical", "to cylindrical"):
        A("conversion", conversions, h)
    A("closeness", closeness)
    for n in (2, 3):
        A("wrappers", wrappers, n, mods=(GV,))
    A("rows", rows, mods=(GV,))
    for h in ("rotation", "box"):
        A("plane vectors", plane_vectors, h, mods=(GV,))
    for i in range(3):
        A("orthogonal", orthogonal, i, mods=(GV,))
    for h in ("unit", "points"):
        A("angle", angles, h, mods=(GV,))
    for h, r in (("default", 0), ("object", None), ("array", 1), ("array", 2)):
        A("frames", frames, h, r, mods=(PLN,))
    for k in range(3):
        A("circle", circle, k, mods=(PLN,))
    return out
