from common import *

BOUNDS = ("curves of degree 1-3 with up to degree+3 control points, surfaces up to degree (2,2); every interior multiplicity pattern, symbolic knots in [1/2,8] (with negative and zero knots in separate cases) at least "
          "1/64 apart, split parameter on a knot or at least 1/64 from each; every parameter of the pieces; unclamped curves of distinct knots, degree 1-3, and an unclamped surface")
OUTSIDE = "higher degrees, periodic knot vectors, unclamped ones with repeated knots, parameters within the tolerance of the domain ends, rounding"


def piece(c, label, crv, p, a, b, kn, P, u, unit=False):
    """crv is the curve (kn, P) restricted to [a, b]; u a parameter in [a, b]"""
    k2, P2 = lst(crv.knots), lst(crv.control_pointsw)
    if len(k2) != len(P2) + p + 1:
        c.fail(label + " sizes", f"{len(k2)} knots, {len(P2)} points")
    if crv.degree != p:
        c.fail(label + " degree")
    it = crv.interval()
    lo, hi = (c.num(0), c.num(1)) if unit else (a, b)
    c.eqv(label + " interval", [it[0], it[1]], [lo, hi])
    for i in range(p + 1):
        c.eqv(label + f" end knots {i}", [k2[i], k2[-1 - i]], [lo, hi])
    x = (u - a) / (b - a) if unit else u
    c.eqv(label + " curve", curve_at(k2, p, P2, x), curve_at(kn, p, P, u))
    c.eqv(label + " evaluate", lst(crv.evaluate(x))[:3], curve_at(kn, p, P, u))


def start(c, p, mult, pos, w="one", lo=None):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=lo)
    P = ctrl_sparse(c, "P", n, 3, w)
    t = on_domain(c, "t", b, pos)
    return n, b, kn, P, t


def split(c, p, mult, pos, side, fn, unit=False, lo=None):
    m = c.mod(NURBS)
    n, b, kn, P, t = start(c, p, mult, pos, lo=lo)
    i = pos[1]
    bb = b[:i + 1] + [t] if side == 0 and pos[0] == "in" else (b[:i + 1] if side == 0 else ([t] + b[i + 1:] if pos[0] == "in" else b[i:]))
    u = on_domain(c, "u", bb, "any")
    c.feasible()
    crv = curve(c, P, p, kn)
    if unit:
        r = m.split_curve(crv, t, 1e-7, True)
    else:
        r = getattr(m, fn)(crv, t)
    if len(r) != 2:
        c.fail("two pieces")
    a, e = (b[0], t) if side == 0 else (t, b[-1])
    piece(c, "piece", r[side], p, a, e, kn, P, u, unit)
    c.eqm("operand points", lst(crv.control_pointsw), P)
    c.eqv("operand knots", lst(crv.knots), kn)


def split_rational(c, p, mult, pos, side):
    m = c.mod(NURBS)
    n, b, kn, P, t = start(c, p, mult, pos, "pos")
    i = pos[1]
    u = on_domain(c, "u", (b[:i + 1] + [t]) if side == 0 else ([t] + b[i + 1:]), "any")
    c.feasible()
    weight_positive(c, kn, n, p, u, [r[3] for r in P])
    weight_positive(c, kn, n, p, t, [r[3] for r in P], "denominator at t")
    r = m.split_curve(curve(c, P, p, kn), t)[side]
    k2, P2 = lst(r.knots), lst(r.control_pointsw)
    weight_positive(c, k2, len(P2), p, u, [q[3] for q in P2], "piece denominator")
    c.eqv("curve", curve_at(k2, p, P2, u), curve_at(kn, p, P, u))


def loose(c, p, n, fn, side, at):
    """unclamped knots, all distinct: the domain is [k[p], k[n]]"""
    m = c.mod(NURBS)
    kn = breakpoints(c, "k", n + p + 1)
    b = kn[p:n + 1]
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, at) if fn != "decompose_curve" else None
    crv = curve(c, P, p, kn)
    if t is None:
        u = on_domain(c, "u", b, "any")
        c.feasible()
        r = m.decompose_curve(crv)
        if len(r) != len(b) - 1:
            c.fail("number of pieces", f"{len(r)}")
        ends = list(zip(b, b[1:]))
    else:
        i = at[1]
        bb = b[:i + 1] + ([t] if at[0] == "in" else []) if side == 0 else ([t] if at[0] == "in" else []) + b[i + (at[0] == "in"):]
        u = on_domain(c, "u", bb, "any")
        c.feasible()
        r = getattr(m, fn)(crv, t)
        ends = [(b[0], t), (t, b[-1])]
    for j, (x, (lo, hi)) in enumerate(zip(r, ends)):
        it = x.interval()
        c.eqv(f"interval {j}", [it[0], it[1]], [lo, hi])
        if (j == side if t is not None else bool(c.And(lo <= u, u <= hi))):
            c.eqv(f"piece {j}", lst(x.evaluate(u))[:3], ref_curve(kn, p, P, u))


def loose_s(c, way, side):
    m = c.mod(NURBS)
    ku = breakpoints(c, "k", 6)
    b = ku[2:4]
    kv = [c.num(0)] * 2 + [c.num(1)] * 2
    P = [[[c.num(i), c.num(j), c.real(f"z{i}_{j}", -8, 8)] for j in range(2)] for i in range(3)]
    t = on_domain(c, "t", b, ("in", 0))
    v = c.real("v", 0, 1)
    u = on_domain(c, "u", [b[0], t] if side == 0 else [t, b[1]], "any")
    c.feasible()
    if way == "u":
        s = surface(c, P, 2, 1, ku, kv)
        r = m.split_surface_u(s, t)[side]
        uv = [u, v]
    else:
        s = surface(c, [[P[i][j] for i in range(3)] for j in range(2)], 1, 2, kv, ku)
        r = m.split_surface_v(s, t)[side]
        uv = [v, u]
    c.eqv("point", lst(r.evaluate(c.array(uv)))[:3], ref_surface(ku, kv, 2, 1, P, u, v))
    it = lst(r.interval())
    c.eqm("domain", it if way == "u" else it[::-1], [[b[0], t] if side == 0 else [t, b[1]], [0, 1]])


def edge(c, p, fn):
    """a split at the ends of the domain, or outside of it, is refused"""
    m = c.mod(NURBS)
    n, b, kn, P, _ = start(c, p, (), ("at", 0))
    t = c.real("t", -8, 12)
    c.assume(c.Or(t <= b[0], t >= b[1]))
    c.feasible()
    st, v = c.call(getattr(m, fn), curve(c, P, p, kn), t)
    c.check("refused", st == "err" and isinstance(v, ValueError), lambda: f"{st} {v!r}")


def multi(c, p, mult):
    """splitting at several parameters"""
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, "one")
    t0 = on_domain(c, "s", b, ("in", 0))
    t1 = on_domain(c, "t", [t0, b[1]], ("in", 0)) if not mult else b[1]
    u = on_domain(c, "u", sorted_bp(b, t0, t1, bool(mult)), "any")
    c.feasible()
    r = m.split_curve_multiple(curve(c, P, p, kn), c.array([t0, t1]))
    c.check("pieces", len(r) == 3, f"{len(r)}")
    lo = [b[0], t0, t1]
    hi = [t0, t1, b[-1]]
    for k in range(3):
        it = r[k].interval()
        c.eqv(f"interval{k}", [it[0], it[1]], [lo[k], hi[k]])
    k = 0 if bool(u <= t0) else (1 if bool(u <= t1) else 2)
    piece(c, f"piece{k}", r[k], p, lo[k], hi[k], kn, P, u)


def sorted_bp(b, t0, t1, at):
    return [b[0], t0] + ([] if at else [t1]) + list(b[1:])


def decompose(c, p, mult):
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3, "one")
    u = on_domain(c, "u", b, "any")
    c.feasible()
    r = m.decompose_curve(curve(c, P, p, kn))
    c.check("pieces", len(r) == len(b) - 1, f"{len(r)}")
    for k in range(len(r)):
        if bool(b[k] <= u) and bool(u <= b[k + 1]):
            piece(c, f"piece{k}", r[k], p, b[k], b[k + 1], kn, P, u)
            c.check(f"Bezier{k}", len(lst(r[k].control_points)) == p + 1)


def surf_piece(c, label, s, pu, pv, box, ku, kv, P, u, v):
    U2, V2, P2 = lst(s.knots_u), lst(s.knots_v), lst(s.control_points_w)
    if len(U2) != len(P2) + pu + 1 or len(V2) != len(P2[0]) + pv + 1:
        c.fail(label + " sizes", f"{len(U2)} {len(V2)} {len(P2)} {len(P2[0])}")
    c.eqm(label + " interval", lst(s.interval()), box)
    c.eqv(label + " surface", ref_surface(U2, V2, pu, pv, P2, u, v, None, 4), ref_surface(ku, kv, pu, pv, P, u, v, None, 4))
    c.eqv(label + " evaluate", lst(s.evaluate(c.array([u, v])))[:3], ref_surface_h(ku, kv, pu, pv, P, u, v))


def surf_split(c, pu, pv, mu, mv, d, pos, side):
    m = c.mod(NURBS)
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu)
    bv, kv = clamped(c, "kv", pv, mv)
    P = [ctrl_sparse(c, f"P{i}", nv, 3, "one") for i in range(nu)]
    b = bu if d == "u" else bv
    i = pos[1]
    t = on_domain(c, "t", b, pos)
    bb = (b[:i + 1] + ([t] if pos[0] == "in" else [])) if side == 0 else ([t] + b[i + 1:])
    x = on_domain(c, "x", bb, "any")
    y = on_domain(c, "y", bv if d == "u" else bu, "any")
    c.feasible()
    s = surface(c, P, pu, pv, ku, kv)
    r = (m.split_surface_u if d == "u" else m.split_surface_v)(s, t)
    if len(r) != 2:
        c.fail("two pieces")
    rng = [b[0], t] if side == 0 else [t, b[-1]]
    box = [rng, [bv[0], bv[-1]]] if d == "u" else [[bu[0], bu[-1]], rng]
    u, v = (x, y) if d == "u" else (y, x)
    surf_piece(c, "piece", r[side], pu, pv, box, ku, kv, P, u, v)
    c.eqm("operand points", lst(s.control_points_w), P)
    c.eqv("operand knots u", lst(s.knots_u), ku)
    c.eqv("operand knots v", lst(s.knots_v), kv)


def subdivide(c, pu, pv, k):
    m = c.mod(NURBS)
    bu, ku = clamped(c, "ku", pu, ())
    bv, kv = clamped(c, "kv", pv, ())
    P = [ctrl_sparse(c, f"P{i}", pv + 1, 3, "one") for i in range(pu + 1)]
    s0 = on_domain(c, "s", bu, ("in", 0))
    t0 = on_domain(c, "t", bv, ("in", 0))
    lu = [[bu[0], s0], [s0, bu[1]]][k // 2]
    lv = [[bv[0], t0], [t0, bv[1]]][k % 2]
    u = on_domain(c, "u", lu, "any")
    v = on_domain(c, "v", lv, "any")
    c.feasible()
    r = m.subdivide_surface(surface(c, P, pu, pv, ku, kv), s0, t0)
    c.check("pieces", len(r) == 4, f"{len(r)}")
    surf_piece(c, f"piece{k}", r[k], pu, pv, [lu, lv], ku, kv, P, u, v)


def decompose_s(c, pu, pv, mu, mv, d):
    m = c.mod(NURBS)
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu)
    bv, kv = clamped(c, "kv", pv, mv)
    P = [ctrl_sparse(c, f"P{i}", nv, 3, "one") for i in range(nu)]
    u = on_domain(c, "u", bu, "any")
    v = on_domain(c, "v", bv, "any")
    c.feasible()
    r = m.decompose_surface(surface(c, P, pu, pv, ku, kv), d)
    cu = [[bu[i], bu[i + 1]] for i in range(len(bu) - 1)] if "u" in d else [[bu[0], bu[-1]]]
    cv = [[bv[i], bv[i + 1]] for i in range(len(bv) - 1)] if "v" in d else [[bv[0], bv[-1]]]
    c.check("pieces", len(r) == len(cu) * len(cv), f"{len(r)}")
    k = 0
    for lu in cu:
        for lv in cv:
            if bool(lu[0] <= u) and bool(u <= lu[1]) and bool(lv[0] <= v) and bool(v <= lv[1]):
                surf_piece(c, f"piece{k}", r[k], pu, pv, [lu, lv], ku, kv, P, u, v)
            k += 1


def cases(tier):
    out = []
    deep = tier != "quick"
    for p in (1, 2, 3) + ((4,) if deep else ()):
        for n in range(p + 1, p + (4 if p < 3 else 3) + (1 if deep else 0)):
            for mult in mults(n, p):
                for pos in params_of(len(mult) + 2)[1:]:
                    if pos == ("at", len(mult) + 1):
                        continue
                    nm = name_of(f"p{p}", mult, pos)
                    for side in (0, 1):
                        for fn in ("split_curve", "split_curve2"):
                            out.append(Case(f"{fn} {nm} side{side}", split, (p, mult, pos, side, fn), mods=[NURBS], weight=p * 10 + n))
                            if n <= p + 2 and p < 3:
                                out.append(Case(f"{fn} signed {nm} side{side}", split, (p, mult, pos, side, fn, False, -4), mods=[NURBS], weight=p * 10 + n))
                        if n <= p + 2 and p < 3 and pos[0] == "in":
                            out.append(Case(f"normalized {nm} side{side}", split, (p, mult, pos, side, "split_curve", True), mods=[NURBS], weight=p * 10 + n))
                        if n <= p + 1 and pos[0] == "in":
                            out.append(Case(f"rational {nm} side{side}", split_rational, (p, mult, pos, side), mods=[NURBS], weight=p * 10 + n))
                if n <= p + 2:
                    out.append(Case(f"multiple p{p} {name_of(mult)}", multi, (p, mult), mods=[NURBS], weight=p * 10 + n))
                out.append(Case(f"decompose p{p} {name_of(mult)}", decompose, (p, mult), mods=[NURBS], weight=p * 10 + n))
        for fn in ("split_curve", "split_curve2"):
            out.append(Case(f"edge {fn} p{p}", edge, (p, fn), mods=[NURBS]))
    shapes = [(1, 2, (), (1,)), (2, 1, (1,), ()), (2, 2, (), ())] + ([(2, 3, (1,), ()), (3, 3, (1,), (2,))] if deep else [])
    for pu, pv, mu, mv in shapes:
        for d, mult in (("u", mu), ("v", mv)):
            for pos in params_of(len(mult) + 2)[1:]:
                if pos == ("at", len(mult) + 1):
                    continue
                for side in (0, 1):
                    out.append(Case(f"surface {d} p{pu}{pv} {name_of(mu, mv, pos)} side{side}", surf_split, (pu, pv, mu, mv, d, pos, side), mods=[NURBS], weight=60))
    for pu, pv in [(1, 1), (2, 1), (1, 2), (2, 2)]:
        for k in range(4):
            out.append(Case(f"subdivide p{pu}{pv} {k}", subdivide, (pu, pv, k), mods=[NURBS], weight=50))
    for pu, pv, mu, mv in [(1, 1, (1,), (1,)), (2, 1, (1,), (1,)), (2, 2, (1,), ())]:
        for d in ("u", "v", "uv"):
            out.append(Case(f"decompose_surface {d} p{pu}{pv} {name_of(mu, mv)}", decompose_s, (pu, pv, mu, mv, d), mods=[NURBS], weight=70))
    for p in (1, 2, 3):
        n = p + 2
        for fn in ("split_curve", "split_curve2"):
            for side in (0, 1):
                for at in (("in", 0), ("at", 1)):
                    out.append(Case(f"unclamped {fn} p{p} {at} side{side}", loose, (p, n, fn, side, at), mods=[NURBS], weight=p * 10))
        out.append(Case(f"unclamped decompose p{p}", loose, (p, n, "decompose_curve", 0, None), mods=[NURBS], weight=p * 10))
    for way in "uv":
        for side in (0, 1):
            out.append(Case(f"unclamped surface {way} side{side}", loose_s, (way, side), mods=[NURBS], weight=30))
    return out
