from common import *

BOUNDS = ("curves of degree 1-3 (thorough 4) with up to degree+3 control points, every interior multiplicity pattern, derivative order up to 3; rational curves "
          "of degree 1-2; surface derivative tables up to degree (2,2) and order 2; knots in [1/2,8] at least 1/64 apart, parameter on a knot or at "
          "least 1/64 from every knot; unclamped curves of distinct knots")
OUTSIDE = "higher degrees and orders, unclamped knot vectors with repeated knots, rounding; numerical surface derivatives are only compared on quadratic surfaces"


def deriv(c, p, mult, order):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    u = on_domain(c, "u", b)
    c.feasible()
    crv = curve(c, P, p, kn)
    ref = [ref_curve_d(kn, p, P, u, d) for d in range(max(order, 2) + 1)]
    for nm, f in (("derivatives1", crv.derivatives1), ("derivatives2", crv.derivatives2)):
        got = lst(f(u, order))
        c.check(f"{nm} rows", len(got) == order + 1, f"{len(got)}")
        for d in range(min(order + 1, len(got))):
            c.eqv(f"{nm} order {d}", got[d][:3], ref[d])
    c.eqv("derivative", lst(crv.derivative(u)), ref[1])
    c.eqv("second derivative", lst(crv.second_derivative(u)), ref[2] if p > 1 else [0, 0, 0])


def loose(c, p, n, order):
    """unclamped knots, all distinct: the domain is [k[p], k[n]]"""
    kn = breakpoints(c, "k", n + p + 1)
    P = ctrl_sparse(c, "P", n, 3)
    u = on_domain(c, "u", kn[p:n + 1])
    c.feasible()
    crv = curve(c, P, p, kn)
    ref = [ref_curve_d(kn, p, P, u, d) for d in range(max(order, 2) + 1)]
    for nm, f in (("derivatives1", crv.derivatives1), ("derivatives2", crv.derivatives2)):
        got = lst(f(u, order))
        c.check(f"{nm} rows", len(got) == order + 1, f"{len(got)}")
        for d in range(min(order + 1, len(got))):
            c.eqv(f"{nm} order {d}", got[d][:3], ref[d])
    c.eqv("derivative", lst(crv.derivative(u)), ref[1])
    c.eqv("second derivative", lst(crv.second_derivative(u)), ref[2] if p > 1 else [0, 0, 0])


def deriv_any(c, p, mult, order):
    """all coordinates symbolic, first derivative only"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl(c, "P", n, 3)
    u = on_domain(c, "u", b)
    c.feasible()
    crv = curve(c, P, p, kn)
    c.eqv("derivative", lst(crv.derivative(u)), ref_curve_d(kn, p, P, u, 1))


def deriv_rational(c, p, mult, order):
    """w C = A  =>  w C' = A' - w' C and so on"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, "pos")
    u = on_domain(c, "u", b)
    c.feasible()
    W = [r[3] for r in P]
    weight_positive(c, kn, n, p, u, W)
    crv = curve(c, P, p, kn)
    Pw = rational(P)
    A = [ref_curve_d(kn, p, Pw, u, d, 4) for d in range(order + 1)]
    got = [lst(crv.evaluate(u))[:3], lst(crv.derivative(u)), lst(crv.second_derivative(u))][:order + 1]
    tabs = [("single", got)]
    tabs += [("derivatives1", [r[:3] for r in lst(crv.derivatives1(u, order))]), ("derivatives2", [r[:3] for r in lst(crv.derivatives2(u, order))])]
    binom = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1]]
    for nm, g in tabs:
        c.check(f"{nm} rows", len(g) == order + 1, f"{len(g)}")
        for d in range(min(order + 1, len(g))):
            for j in range(3):
                lhs = sum_(binom[d][i] * A[i][3] * g[d - i][j] for i in range(d + 1))
                c.eq(f"{nm} order {d} [{j}]", lhs, A[d][j])


def ders(c, p, mult, order):
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=-4)
    u = on_domain(c, "u", b)
    c.feasible()
    s = span_of(kn, n, p, u)
    got = lst(m.ders_basis_funs(s, u, p, order, c.array(kn)))
    for d in range(order + 1):
        for j in range(p + 1):
            c.eq(f"N'[{d}][{j}]", got[d][j], dbasis(kn, s - p + j, p, u, s, d) if d <= p else 0)


def deriv_cpts(c, p, mult, order):
    """the derivative curve's control points: its value is the derivative"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    u = on_domain(c, "u", b)
    c.feasible()
    crv = curve(c, P, p, kn)
    st, PK = c.call(crv.derivative_control_points, u, order)
    if st == "err":
        c.fail("derivative control points", repr(PK)[:200])
    PK = lst(PK)
    s = span_of(kn, n, p, u)
    for d in range(order + 1):
        N = [cox_de_boor(kn, s - p + d + j, p - d, u, s) for j in range(p - d + 1)]
        c.eqv(f"order {d}", [sum_(N[j] * PK[d][j][k] for j in range(p - d + 1)) for k in range(3)], ref_curve_d(kn, p, P, u, d))


def surf_table(c, pu, pv, mu, mv, order):
    m = c.mod(NURBS)
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu)
    bv, kv = clamped(c, "kv", pv, mv)
    P = [ctrl_sparse(c, f"P{i}", nv, 4) for i in range(nu)]
    u = on_domain(c, "u", bu)
    v = on_domain(c, "v", bv)
    c.feasible()
    flat = [r for row in P for r in row]
    got = lst(m.surface_derivatives_py((pu, pv), c.array(ku), c.array(kv), c.array(flat), (nu, nv), u, v, order))
    for k in range(order + 1):
        for l in range(order + 1):
            want = ref_surface_d(ku, kv, pu, pv, P, u, v, k, l, 4) if k <= pu and l <= pv else [0] * 4
            c.eqv(f"S[{k}][{l}]", got[k][l], want)


def rat_table(c, order):
    """w S = A differentiated k times by u and l times by v"""
    m = c.mod(NURBS)
    A = [[[c.real(f"a{k}{l}{i}", -4, 4) for i in range(3)] + [c.real(f"w{k}{l}", c.q(1, 4) if k == l == 0 else -4, 4)] for l in range(order + 1)]
         for k in range(order + 1)]
    S = lst(m.rat_surface_derivs_py(c.array(A), order))
    binom = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1]]
    for k in range(order + 1):
        for l in range(order + 1):
            for x in range(3):
                c.eq(f"S[{k}][{l}][{x}]", sum_(binom[k][i] * binom[l][j] * A[i][j][3] * S[k - i][l - j][x] for i in range(k + 1) for j in range(l + 1)),
                     A[k][l][x])


def surf_methods(c, pu, pv, a, b_, kind):
    """numerical first and second derivatives of a polynomial patch: exact for quadratics away from the ends"""
    nu, nv = pu + 1, pv + 1
    ku = [c.num(a)] * (pu + 1) + [c.num(b_)] * (pu + 1)
    kv = [c.num(a)] * (pv + 1) + [c.num(b_)] * (pv + 1)
    P = [ctrl_sparse(c, f"P{i}", nv, 3, lo=-1, hi=1) for i in range(nu)]
    lo, hi = (c.q(1, 100) + a, b_ - c.q(1, 100)) if kind == "inside" else (c.num(a), c.num(b_))
    u, v = c.real("u", lo, hi), c.real("v", lo, hi)
    if kind == "low":
        c.assume(u == a)
        c.assume(v == a)
    if kind == "high":
        c.assume(u == b_)
        c.assume(v == b_)
    c.feasible()
    s = surface(c, P, pu, pv, ku, kv)
    uv = c.array([u, v])
    tol = None if kind == "inside" else 0.05
    for nm, d in (("derivative_u", (1, 0)), ("derivative_v", (0, 1))) + ((("second_derivative_uu", (2, 0)), ("second_derivative_vv", (0, 2)),
                                                                          ("second_derivative_uv", (1, 1))) if kind == "inside" else ()):
        got = lst(getattr(s, nm)(uv))
        want = ref_surface_d(ku, kv, pu, pv, P, u, v, *d)
        c.eqv(nm, got, want, tol)
    if kind == "inside":
        du, dv = ref_surface_d(ku, kv, pu, pv, P, u, v, 1, 0), ref_surface_d(ku, kv, pu, pv, P, u, v, 0, 1)
        both = lst(s.derivatives(uv))
        c.eqv("derivatives u", both[0], du)
        c.eqv("derivatives v", both[1], dv)
        n = c.cross(du, dv)
        c.eqv("normal", lst(s.normal(uv)), n)
        c.eqv("normal_multi", lst(s.normal_multi(c.array([[u, v]])))[0], n)


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3) if q else (1, 2, 3, 4):
        for n in range(p + 1, p + (4 if p < 3 else 3) if q else p + 5):
            for mult in mults(n, p):
                add("curve", deriv, p, mult, min(3, p + 1), weight=p)
                add("basis derivatives", ders, p, mult, p, weight=p)
                if n <= p + 2:
                    add("first", deriv_any, p, mult, 1)
                    add("control points", deriv_cpts, p, mult, min(2, p))
    for p in (1, 2, 3):
        add("unclamped", loose, p, p + 1, min(3, p + 1), weight=p)
        add("unclamped", loose, p, p + 2, min(3, p + 1), weight=p)
    for p in (1, 2) if q else (1, 2, 3):
        for n in range(p + 1, p + 3):
            for mult in mults(n, p):
                add("rational", deriv_rational, p, mult, 2, weight=3)
    for pu, pv, mu, mv in ([(1, 1, (), ()), (2, 1, (), ()), (1, 2, (), ()), (2, 2, (), ()), (2, 1, (1,), ()), (1, 2, (), (2,)), (1, 1, (1,), (1,)),
                            (3, 1, (), ())] + ([] if q else [(3, 2, (), ()), (3, 3, (), ()), (2, 2, (1,), (1,)), (2, 3, (2,), ())])):
        add("surface table", surf_table, pu, pv, mu, mv, 2, weight=4)
    for o in (0, 1, 2):
        add("rational table", rat_table, o)
    for pu, pv in ((1, 1), (2, 2), (2, 1), (1, 2)):
        for a, b_ in ((0, 1), (0, 3), (-2, 2)):
            add("surface methods", surf_methods, pu, pv, a, b_, "inside")
        for a, b_ in ((0, 1), (2, 3)):
            add("surface methods", surf_methods, pu, pv, a, b_, "low")
            add("surface methods", surf_methods, pu, pv, a, b_, "high")
    return out
