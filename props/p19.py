from common import *
from p16 import C, bernstein

BOUNDS = ("patches of degree 0-3 by 0-3 in each direction (conversions, derivatives, products, normals), one-directional degrees up to 8 for the conversions; Gauss maps of "
          "polynomial patches up to degree 2x2 and rational ones up to 1x2, with arbitrary domains, and of their four sub-patches; every coefficient, coordinate, weight, "
          "domain and parameter symbolic; the whole table of binomials")
OUTSIDE = "floating-point conditioning of the basis conversion at high degrees, convex hulls and separating planes of Gauss maps (scipy's Qhull and HiGHS)"

MON, GAU, BIN = "mmcore.numeric.monomial", "mmcore.numeric.gauss_map", "mmcore.numeric.binom"


def grid(c, name, n, m, d, sparse=False):
    if sparse:
        return [[[c.real(f"{name}{i}_{j}", -8, 8)] + [c.num(((i + 1) * (k + 2) * (2 * j + 3)) % 7 - 3) for k in range(1, d)] for j in range(m)] for i in range(n)]
    return [[[c.real(f"{name}{i}_{j}_{k}", -8, 8) for k in range(d)] for j in range(m)] for i in range(n)]


def bern2(P, u, v):
    return bernstein([bernstein(r, v) for r in P], u)


def mono2(A, u, v):
    d = max([len(x) for r in A for x in r] or [0])
    return [sum_(A[i][j][k] * u ** i * v ** j for i in range(len(A)) for j in range(len(A[i]))) for k in range(d)]


def conv(c, n, m, d, method):
    M = c.mod(MON)
    P = grid(c, "P", n, m, d)
    u, v = c.real("u", -2, 2), c.real("v", -2, 2)
    c.feasible()
    A = M.bezier_to_monomial(c.array(P), method)
    A_ = lst(A)
    c.check("shape", len(A_) == n and len(A_[0]) == m and len(A_[0][0]) == d)
    c.eqv("power form", mono2(A_, u, v), bern2(P, u, v))
    Q = lst(M.monomial_to_bezier(A, method))
    for i in range(n):
        c.eqm("back", Q[i], P[i])
    B = lst(M.monomial_to_bezier(c.array(P), method))
    c.eqv("Bernstein form", bern2(B, u, v), mono2(P, u, v))


def evals(c, n, m):
    M = c.mod(MON)
    P = grid(c, "P", n, m, 3)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    W = [[c.real(f"w{i}_{j}", c.q(1, 2), 4) for j in range(m)] for i in range(n)]
    c.feasible()
    c.eqv("Bezier point", lst(M.evaluate_bezier_patch(c.array(P), u, v)), bern2(P, u, v))
    c.eqv("power point", lst(M.evaluate_monomial2d(c.array(P), u, v)), mono2(P, u, v))
    h = bern2([[[x * w for x in p] + [w] for p, w in zip(r, s)] for r, s in zip(P, W)], u, v)
    got = lst(M.evaluate_rational_bezier_patch(c.array(P), c.array(W), u, v))
    c.assume(h[3] > 0)
    c.eqv("rational point", [g * h[3] for g in got], h[:3])
    # the same patch in homogeneous power form
    H = M.bezier_to_monomial(c.array([[[x * w for x in p] + [w] for p, w in zip(r, s)] for r, s in zip(P, W)]))
    R = lst(M.homogeneous_monomial_to_rational_bezier(H))
    for i in range(n):
        c.eqm("rational control points", R[i], [p + [w] for p, w in zip(P[i], W[i])])


def cls(c, n, m):
    M = c.mod(MON)
    P = grid(c, "P", n, m, 3)
    b = breakpoints(c, "b", 4)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    c.feasible()
    ku, kv = [b[0]] * n + [b[1]] * n, [b[2]] * m + [b[3]] * m
    s = surface(c, P, n - 1, m - 1, ku, kv)
    for how in ("from_bezier", "from_nurbs"):
        mm = getattr(M.Monomial2D, how)(s)
        c.eqv(how, lst(mm.evaluate(c.array([u, v]))), bern2(P, u, v))
        c.eqv(how + " v2", lst(mm.evaluate_v2(u, v)), bern2(P, u, v))
    for how in ("to_bezier", "to_nurbs"):
        t = getattr(mm, how)()
        c.eqv(how, lst(t.evaluate(c.array([u, v])))[:3], bern2(P, u, v))
    c.eqm("Bernstein basis", [x for r in lst(mm.to_bernstein_basis()) for x in r], [x for r in P for x in r])
    k = M.Monomial2D.from_bernstein_basis(c.array(P))
    c.eqv("from Bernstein", lst(k.evaluate(c.array([u, v]))), bern2(P, u, v))
    A = lst(k.coeffs)
    du, dv = k.monomial_derivatives()
    N = k.monomial_normal()
    a, e = dmono(A, u, v)
    c.eqv("derivative u", lst(du.evaluate(c.array([u, v]))), a)
    c.eqv("derivative v", lst(dv.evaluate(c.array([u, v]))), e)
    c.eqv("normal", lst(N.evaluate(c.array([u, v]))), c.cross(a, e))
    c.eqv("cross", lst(du.cross(dv).evaluate(c.array([u, v]))), c.cross(a, e))


def pieces(c, p, mult):
    """a surface of several pieces is refused by from_nurbs"""
    M = c.mod(MON)
    n = p + 1 + sum(mult)
    b, ku = clamped(c, "b", p, mult)
    P = grid(c, "P", n, 2, 3, True)
    c.feasible()
    s = surface(c, P, p, 1, ku, [0, 0, 1, 1])
    st, ex = c.call(M.Monomial2D.from_nurbs, s)
    c.check("refused", st == "err")
    G = c.mod(GAU)
    c.check("several pieces u", not G.is_bezier(s))
    s = surface(c, [[P[i][j] for i in range(n)] for j in range(2)], 1, p, [0, 0, 1, 1], ku)
    st, ex = c.call(M.Monomial2D.from_nurbs, s)
    c.check("refused v", st == "err")
    c.check("several pieces v", not G.is_bezier(s))
    k = [b[0]] * (p + 1) + [b[-1]] * (p + 1)
    s = surface(c, P[:p + 1], p, 1, k, [0, 0, 1, 1])
    c.check("one piece", bool(G.is_bezier(s)))


def dmono(A, u, v):
    n, m, d = len(A), len(A[0]), len(A[0][0])
    return ([sum_(i * A[i][j][k] * u ** (i - 1) * v ** j for i in range(1, n) for j in range(m)) for k in range(d)],
            [sum_(j * A[i][j][k] * u ** i * v ** (j - 1) for i in range(n) for j in range(1, m)) for k in range(d)])


def deriv(c, n, m):
    M, G = c.mod(MON), c.mod(GAU)
    A = grid(c, "A", n, m, 3)
    u, v = c.real("u", -2, 2), c.real("v", -2, 2)
    c.feasible()
    a, e = dmono(A, u, v)
    du, dv = M.monomial_partial_derivatives(c.array(A))
    c.eqv("u", mono2(lst(du), u, v) if n > 1 else [0, 0, 0], a)
    c.eqv("v", mono2(lst(dv), u, v) if m > 1 else [0, 0, 0], e)
    gu, gv = G.compute_partial_derivative(c.array(A), "u"), G.compute_partial_derivative(c.array(A), "v")
    c.eqv("u padded", mono2(lst(gu), u, v), a)
    c.eqv("v padded", mono2(lst(gv), u, v), e)
    want = c.cross(a, e)
    if n > 1 and m > 1:
        c.eqv("normal", mono2(lst(M.normal_vector_monomial(c.array(A))), u, v), want)
        c.eqv("normal padded", mono2(lst(G.cross_product(gu, gv)), u, v), want)


def prod(c, n1, m1, n2, m2):
    M = c.mod(MON)
    A, B = grid(c, "A", n1, m1, 3), grid(c, "B", n2, m2, 3)
    u, v = c.real("u", -2, 2), c.real("v", -2, 2)
    c.feasible()
    N = M.cross_product_monomial(c.array(A), c.array(B))
    c.eqv("product", mono2(lst(N), u, v), c.cross(mono2(A, u, v), mono2(B, u, v)))


def normal_of(c, P, W, u, v):
    """S_u x S_v times w ** 3 (w = 1 for a polynomial patch) on the unit square, straight from the definition"""
    n, m = len(P), len(P[0])
    H = [[[x * w for x in p] + [w] for p, w in zip(r, s)] for r, s in zip(P, W)]
    Hu = [[[(n - 1) * (a - b) for a, b in zip(H[i + 1][j], H[i][j])] for j in range(m)] for i in range(n - 1)]
    Hv = [[[(m - 1) * (a - b) for a, b in zip(H[i][j + 1], H[i][j])] for j in range(m - 1)] for i in range(n)]
    F, Fu, Fv = bern2(H, u, v), bern2(Hu, u, v), bern2(Hv, u, v)
    # (Fu w - F wu) x (Fv w - F wv) / w
    a = [Fu[k] * F[3] - F[k] * Fu[3] for k in range(3)]
    b = [Fv[k] * F[3] - F[k] * Fv[3] for k in range(3)]
    return c.cross(a, b), F[3]


def gauss(c, n, m, w, dom):
    """the control vectors of a patch's Gauss map point along the coefficients of its normal"""
    G = c.mod(GAU)
    P = grid(c, "P", n, m, 3, sparse=True)
    W = [[c.num(1) if w is None else (c.real(f"w{i}_{j}", c.q(1, 2), 4) if w == "pos" else c.num((i + 2 * j) % 3 + 1)) for j in range(m)] for i in range(n)]
    b = breakpoints(c, "b", 4) if dom else [0, 1, 0, 1]
    c.feasible()
    Pw = P if w is None else [[[t * q for t in p] + [q] for p, q in zip(r, s)] for r, s in zip(P, W)]
    if w == "fix" or w is None:
        co = lst(G.compute_gauss_map(c.array(P)) if w is None else G.compute_gauss_mapw(c.array(P), c.array(W)))
    s = surface(c, Pw, n - 1, m - 1, [b[0]] * n + [b[1]] * n, [b[2]] * m + [b[3]] * m)
    for r in co:
        for t in r:
            c.assume(c.dot(t, t) > c.q(1, 16))
    g = G.GaussMap.from_surf(s)
    got = lst(g._map.control_points)
    c.check("shape", [len(got), len(got[0])] == [len(co), len(co[0])])
    for i in range(len(co)):
        for j in range(len(co[0])):
            c.eqv("direction", c.cross(got[i][j], co[i][j]), [0, 0, 0])
            c.check("side", c.dot(got[i][j], co[i][j]) > 0)
    c.check("surface kept", g.surface is s)
    c.check("degrees of a Bezier patch", [int(x) for x in g._map.degree] == [len(co) - 1, len(co[0]) - 1])
    c.check("one piece", bool(G.is_bezier(g._map)))


def sub_gauss(c, part):
    """the middle of a bilinear patch: the Gauss map of each of its four parts has the patch's normal there"""
    G = c.mod(GAU)
    t = c.real("t", 1, 8)
    P = [[[0, 0, 0], [0, 1, 0]], [[1, 0, 0], [1, 1, t]]]
    P = [[[c.num(0) + x for x in p] for p in r] for r in P]
    c.feasible()
    s = surface(c, P, 1, 1, [0, 0, 1, 1], [0, 0, 1, 1])
    g = G.GaussMap.from_surf(s).subdivide()[part]
    (u0, u1), (v0, v1) = [[x for x in r] for r in lst(g.surface.interval())]
    h = c.q(1, 2)
    c.eqv("halves u", [u0, u1], [0, h] if part < 2 else [h, 1])
    c.eqv("halves v", [v0, v1], [0, h] if part % 2 == 0 else [h, 1])
    got = lst(g._map.control_points)
    k = len(got)
    N = got[-1 if part < 2 else 0][-1 if part % 2 == 0 else 0]
    # the normal at the middle is (1, 0, t / 2) x (0, 1, t / 2)
    c.eqv("normal of the part", c.cross(N, [-t / 2, -t / 2, c.num(1)]), [0, 0, 0])


def gaussw(c, n, m):
    G = c.mod(GAU)
    P = grid(c, "P", n, m, 3, sparse=True)
    W = [[c.real(f"w{i}_{j}", c.q(1, 2), 4) for j in range(m)] for i in range(n)]
    x, y = c.real("x", 0, 1), c.real("y", 0, 1)
    c.feasible()
    N = bern2(lst(G.compute_gauss_mapw(c.array(P), c.array(W))), x, y)
    want, ww = normal_of(c, P, W, x, y)
    c.eqv("rational", [t * ww for t in N], want)
    one = [[c.num(1)] * m for _ in range(n)]
    c.eqv("polynomial", bern2(lst(G.compute_gauss_map(c.array(P))), x, y), normal_of(c, P, one, x, y)[0])
    c.eqv("no weights", bern2(lst(G.compute_gauss_mapw(c.array(P))), x, y), normal_of(c, P, one, x, y)[0])


def table(c, i0, i1):
    f = c.mod(BIN).binomial_coefficient_py
    c.feasible()
    for i in range(i0, i1):
        for j in range(0, i1):
            c.check("binomial", f(i, j) == C(i, j), f"{i} {j}")


def cases(tier):
    big = tier == "thorough"
    out = []

    def A(label, fn, *a, mods=(MON,), **k):
        out.append(Case(label + " " + name_of(*a), fn, a, mods=mods, **k))
    for n, m in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 3), (4, 2), (4, 4), (6, 1), (1, 8), (9, 1)] + ([(5, 5), (6, 3), (12, 1)] if big else []):
        for meth in ("mmcore", "scipy"):
            A("conversion", conv, n, m, 3 if n * m < 10 else 1, meth)
    for n, m in [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 4), (4, 2)] if big else []):
        A("evaluation", evals, n, m)
        if n > 1 and m > 1:
            A("surface class", cls, n, m, mods=(MON, NURBS))
    for n, m in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 3), (4, 4)] if big else []):
        A("derivatives", deriv, n, m, mods=(MON, GAU))
    for a in [(1, 1, 2, 2), (2, 1, 1, 2), (2, 2, 2, 2), (3, 2, 1, 3), (2, 3, 3, 2)]:
        A("product", prod, *a)
    for p, mult in ((1, (1,)), (2, (1,)), (2, (2,)), (3, (1, 2))):
        A("pieces", pieces, p, mult, mods=(MON, GAU, NURBS))
    for n, m, w in [(2, 2, None), (2, 3, None), (3, 2, None), (2, 2, "fix"), (2, 3, "fix")] + ([(3, 3, None), (3, 3, "fix"), (3, 2, "fix")] if big else []):
        for dom in (False, True):
            A("Gauss map", gauss, n, m, w, dom, mods=(GAU, NURBS))
    for part in range(4):
        A("Gauss map of a part", sub_gauss, part, mods=(GAU, NURBS))
    for n, m in [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if big else []):
        A("rational Gauss map", gaussw, n, m, mods=(GAU,))
    for i in range(0, 31, 8):
        A("binomials", table, i, min(i + 8, 31), mods=(BIN,))
    A("binomials", table, 31, 36, mods=(BIN,))
    return out
