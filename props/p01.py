from common import *

BOUNDS = ("curve degree 1-3 with up to degree+4 control points (thorough: degree 4, more points), surface degree up to (2,2); clamped knot vectors of every "
          "interior multiplicity pattern with symbolic knot values in [-4,8] at least 1/64 apart; control points in [-8,8], weights in [1/4,4]; "
          "parameter anywhere in the domain (on a knot or at least 1/64 from each knot); unclamped knot vectors of distinct knots for curves of degree 1-3 and surfaces up to (2,2)")
OUTSIDE = "higher degrees and sizes, periodic knot vectors (P09), unclamped ones with repeated knots, rounding"


def curve_eval(c, p, mult, w):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=-4)
    P = ctrl(c, "P", n, 3, w)
    u = on_domain(c, "u", b, "any")
    c.feasible()
    W = [r[3] for r in P] if w else None
    if w == "pos":
        weight_positive(c, kn, n, p, u, W)
    crv = curve(c, P, p, kn)
    got = crv.evaluate(u)
    ref = ref_curve(kn, p, P, u, W)
    c.eqv("point", lst(got), ref)
    m = lst(crv.evaluate_multi(c.array([u])))
    c.eqv("evaluate_multi", m[0][:3], ref)
    it = crv.interval()
    c.eq("interval start", it[0], b[0])
    c.eq("interval end", it[1], b[-1])


def curve_default(c, p, n):
    """default knot vector: clamped, ends interpolated, affine invariance and partition of unity through the basis"""
    m = c.mod(NURBS)
    P = ctrl(c, "P", n)
    crv = m.NURBSCurve(c.array(P), p)
    kn = lst(crv.knots)
    if len(kn) != n + p + 1:
        c.fail("knot count", f"{len(kn)}")
    for a, b in zip(kn, kn[1:]):
        c.le("non-decreasing", a, b)
    t0, t1 = crv.interval()
    c.eqv("start", lst(crv.evaluate(t0))[:3], P[0])
    c.eqv("end", lst(crv.evaluate(t1))[:3], P[-1])
    c.eq("interval0", t0, kn[p])
    c.eq("interval1", t1, kn[n])
    u = c.real("u", float(kn[p]), float(kn[n]))
    c.eqv("point", lst(crv.evaluate(u))[:3], ref_curve(kn, p, P, u))


def basis_props(c, p, mult):
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=-4)
    u = on_domain(c, "u", b, "any")
    c.feasible()
    U = c.array(kn)
    s = m.find_span(n - 1, p, u, U, False)
    ref_s, N = basis(kn, n, p, u)
    c.check("span", s == ref_s, f"{s} {ref_s}")
    got = lst(m.basis_functions(s, u, p, U))
    c.eqv("basis", got, [N[i] for i in sorted(N)])
    c.eq("partition of unity", sum_(got), 1)
    # non-negativity: the reference is built from factors u - U[j] (j <= s) and U[j] - u (j > s) only
    c.check("factors non-negative", c.And(kn[s] <= u, u <= kn[s + 1]))
    ab = lst(m.all_basis_funs(s, u, p, U))
    for d in range(p + 1):
        for j in range(d + 1):
            c.eq(f"all[{j}][{d}]", ab[j][d], cox_de_boor(kn, s - d + j, d, u, s))


def surf_eval(c, pu, pv, mu, mv, w):
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu, lo=-4)
    bv, kv = clamped(c, "kv", pv, mv, lo=-4)
    P = [ctrl(c, f"P{i}", nv, 3, w) for i in range(nu)]
    u = on_domain(c, "u", bu, "any")
    v = on_domain(c, "v", bv, "any")
    c.feasible()
    if w:
        weight_positive2(c, ku, kv, nu, nv, pu, pv, u, v, [[r[3] for r in row] for row in P])
    s = surface(c, P, pu, pv, ku, kv)
    got = lst(s.evaluate(c.array([u, v])))
    c.eqv("point", got[:3], ref_surface_h(ku, kv, pu, pv, P, u, v) if w else ref_surface(ku, kv, pu, pv, P, u, v))
    it = s.interval()
    c.eqm("interval", lst(it), [[bu[0], bu[-1]], [bv[0], bv[-1]]])


def surf_point_py(c, pu, pv, mu, mv):
    m = c.mod(NURBS)
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu, lo=-4)
    bv, kv = clamped(c, "kv", pv, mv, lo=-4)
    P = [ctrl(c, f"P{i}", nv, 3, "one") for i in range(nu)]
    u = on_domain(c, "u", bu, "any")
    v = on_domain(c, "v", bv, "any")
    c.feasible()
    got = m.surface_point_py(nu - 1, pu, c.array(ku), nv - 1, pv, c.array(kv), c.array(P), u, v)
    c.eqv("point", lst(got)[:3], ref_surface(ku, kv, pu, pv, P, u, v))


def unclamped(c, name, n, p):
    """all knots distinct: the domain is [k[p], k[n]]"""
    kn = breakpoints(c, name, n + p + 1, -4)
    return kn[p:n + 1], kn


def curve_unclamped(c, p, n):
    b, kn = unclamped(c, "k", n, p)
    P = ctrl_sparse(c, "P", n, 3)
    u = on_domain(c, "u", b, "any")
    c.feasible()
    crv = curve(c, P, p, kn)
    it = crv.interval()
    c.eqv("interval", [it[0], it[1]], [b[0], b[-1]])
    c.eqv("point", lst(crv.evaluate(u)), ref_curve(kn, p, P, u))


def surf_unclamped(c, pu, pv, nu, nv):
    bu, ku = unclamped(c, "ku", nu, pu)
    bv, kv = unclamped(c, "kv", nv, pv)
    P = [[[c.num(i), c.num(j), c.real(f"z{i}_{j}", -8, 8)] for j in range(nv)] for i in range(nu)]
    u = on_domain(c, "u", bu, "any")
    v = on_domain(c, "v", bv, "any")
    c.feasible()
    s = surface(c, P, pu, pv, ku, kv)
    c.eqm("interval", lst(s.interval()), [[bu[0], bu[-1]], [bv[0], bv[-1]]])
    c.eqv("point", lst(s.evaluate(c.array([u, v])))[:3], ref_surface(ku, kv, pu, pv, P, u, v))
    s.knots_u = c.array([x + 1 for x in ku])
    c.eqm("interval of new knots", lst(s.interval()), [[bu[0] + 1, bu[-1] + 1], [bv[0], bv[-1]]])


def cases(tier):
    out = []
    for p in (1, 2, 3):
        for n in (p + 1, p + 2):
            out.append(Case(f"unclamped curve p{p} n{n}", curve_unclamped, (p, n), mods=[NURBS], weight=p * 10))
    for a in [(1, 1, 2, 2), (2, 1, 3, 2), (1, 2, 3, 3)] + ([(2, 2, 3, 3), (2, 1, 4, 3)] if tier != "quick" else []):
        out.append(Case(f"unclamped surface {a}", surf_unclamped, a, mods=[NURBS], weight=40))
    deep = tier != "quick"
    for p in (1, 2, 3) + ((4, 5) if deep else ()):
        for n in range(p + 1, p + (4 if p < 3 else 4) + (2 if deep else 0)):
            for mu in mults(n, p):
                if len(mu) > (3 if not deep else 4):
                    continue
                nm = "".join(map(str, mu)) or "-"
                ws = (None, "one", "pos") if p < 3 or not mu else (None, "pos")
                for w in ws:
                    out.append(Case(f"curve p{p} m{nm} w{w}", curve_eval, (p, mu, w), mods=[NURBS], weight=p * 10 + len(mu)))
                out.append(Case(f"basis p{p} m{nm}", basis_props, (p, mu), mods=[NURBS], weight=p * 10 + len(mu)))
    for p in (1, 2, 3):
        for n in range(p + 1, p + 5):
            out.append(Case(f"default p{p} n{n}", curve_default, (p, n), mods=[NURBS]))
    for pu, pv, mu, mv in [(1, 1, (), ()), (1, 1, (1,), ()), (2, 1, (), (1,)), (1, 2, (1,), (1,)), (2, 2, (), ()), (2, 2, (1,), ()), (3, 1, (), ()), (1, 3, (), ())] + \
            ([(2, 2, (1,), (2,)), (3, 2, (1,), ()), (3, 3, (), ()), (3, 3, (1,), (1,))] if deep else []):
        nm = f"p{pu}{pv} m{''.join(map(str, mu)) or '-'} {''.join(map(str, mv)) or '-'}"
        for w in (None, "pos") if pu + pv < 4 else (None,):
            out.append(Case(f"surface {nm} w{w}", surf_eval, (pu, pv, mu, mv, w), mods=[NURBS], weight=40))
        out.append(Case(f"surface_point {nm}", surf_point_py, (pu, pv, mu, mv), mods=[NURBS], weight=30))
    return out
