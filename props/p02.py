from common import *

BOUNDS = ("curves of degree 1-4 with up to degree+3 control points and surfaces up to degree (2,2); every interior multiplicity pattern, symbolic knots in [1/2,8] (with negative and zero knots in separate cases) at "
          "least 1/64 apart, inserted parameter on a knot or at least 1/64 from every knot, every admissible number of insertions; sample parameter anywhere; unclamped curves of distinct knots, degree 1-3")
OUTSIDE = "higher degrees, periodic knot vectors, unclamped ones with repeated knots, rounding, tolerance-based matching of almost equal knots"


def same_curve(c, label, kn, p, P, kn2, P2, u):
    """both sets of data define the same curve at u"""
    a = curve_at(kn, p, P, u)
    if [r for r in P2 if len(r) < 4]:
        b = ref_curve(kn2, p, P2, u)
    else:
        b = curve_at(kn2, p, P2, u)
    c.eqv(label, b, a)


def insert(c, p, mult, pos, count, w, lo=None):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=lo)
    P = ctrl_sparse(c, "P", n, 3, w)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    if w == "pos":
        weight_positive(c, kn, n, p, u, [r[3] for r in P])
    crv = curve(c, P, p, kn)
    crv.insert_knot(t, count)
    k2 = merged(kn, t, count, pos, p, mult)
    same_knots(c, "knots", crv.knots, k2)
    P2 = lst(crv.control_pointsw)
    if len(P2) != n + count:
        c.fail("control point count", f"{len(P2)}")
    if w == "pos":
        weight_positive(c, k2, n + count, p, u, [r[3] for r in P2], "new denominator")
        c.eqv("curve", ref_curve(k2, p, P2, u, [r[3] for r in P2]), ref_curve(kn, p, P, u, [r[3] for r in P]))
        return
    same_curve(c, "curve", kn, p, P, k2, P2, u)
    c.eqv("evaluate", lst(crv.evaluate(u))[:3], ref_curve(kn, p, P, u))
    it = crv.interval()
    c.eqv("interval", [it[0], it[1]], [b[0], b[-1]])


def loose(c, p, n, at, count):
    """unclamped knots, all distinct: the domain is [k[p], k[n]]"""
    kn = breakpoints(c, "k", n + p + 1)
    b = kn[p:n + 1]
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, at)
    u = on_domain(c, "u", with_t(b, at, t))
    c.feasible()
    crv = curve(c, P, p, kn)
    crv.insert_knot(t, count)
    i = p + at[1] + 1
    k2 = kn[:i] + [t] * count + kn[i:]
    same_knots(c, "knots", crv.knots, k2)
    c.eqv("evaluate", lst(crv.evaluate(u))[:3], ref_curve(kn, p, P, u))
    it = crv.interval()
    c.eqv("interval", [it[0], it[1]], [b[0], b[-1]])


def greville(c, p, mult, pos, count):
    """the Greville abscissae of the object stay those of its knots"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, pos)
    c.feasible()
    crv = curve(c, P, p, kn)
    c.eqv("before", lst(crv.greville_abscissae), [sum_(kn[i + 1:i + p + 1]) / p for i in range(n)])
    crv.insert_knot(t, count)
    k2 = lst(crv.knots)
    c.eqv("after", lst(crv.greville_abscissae), [sum_(k2[i + 1:i + p + 1]) / p for i in range(n + count)])


def multiply(c, p, mult, pos):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    crv = curve(c, P, p, kn)
    m0 = mult[pos[1] - 1] if pos[0] == "at" else 0
    r = crv.multiply_knot(t)
    c.check("insertions reported", r == p - m0, f"{r}")
    k2 = merged(kn, t, p - m0, pos, p, mult)
    same_knots(c, "knots", crv.knots, k2)
    same_curve(c, "curve", kn, p, P, k2, lst(crv.control_pointsw), u)


def free_insert(c, p, mult, pos, count):
    """the stand-alone functions"""
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, pos)
    u = on_domain(c, "u", with_t(b, pos, t))
    c.feasible()
    U, A = c.array(kn), c.array(P)
    s = mult[pos[1] - 1] if pos[0] == "at" else 0
    span = m.find_span(n - 1, p, t, U, False)
    k2 = lst(m.knot_insertion_kv(U, t, span, count))
    same_knots(c, "knots", k2, merged(kn, t, count, pos, p, mult))
    P2 = lst(m.knot_insertion(p, U, A, t, count, s, span))
    if len(P2) != n + count:
        c.fail("control point count", f"{len(P2)}")
    same_curve(c, "curve", kn, p, P, k2, P2, u)
    c.eqm("input untouched", lst(A), P)
    c.eqv("input knots untouched", lst(U), kn)


def refine(c, p, mult, add):
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    extra = []
    if add:
        x = on_domain(c, "x", b, ("in", 0))
        extra = [x]
    u = on_domain(c, "u", with_t(b, ("in", 0), x) if add else b)
    c.feasible()
    if add:
        P2, k2 = m.knot_refinement(p, c.array(kn), c.array(P), None, c.array(extra))
        want = [b[0]] * (p + 1) + extra * p
    else:
        P2, k2 = m.knot_refinement(p, c.array(kn), c.array(P))
        want = [b[0]] * (p + 1)
    for x in b[1:-1]:
        want += [x] * p
    want += [b[-1]] * (p + 1)
    P2, k2 = lst(P2), lst(k2)
    same_knots(c, "knots", k2, want)
    if len(P2) != len(want) - p - 1:
        c.fail("control point count", f"{len(P2)}")
    same_curve(c, "curve", kn, p, P, k2, P2, u)


def remove(c, p, mult, pos):
    """removing a knot that was just inserted restores the curve"""
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, pos)
    c.feasible()
    crv = curve(c, P, p, kn)
    crv.insert_knot(t, 1)
    P3 = lst(m.knot_removal(p, crv.knots, c.array(lst(crv.control_points)), t, 1e-4, 1))
    if len(P3) != n:
        c.fail("control point count", f"{len(P3)}")
    c.eqm("control points", P3, P)


def refused(c, p, mult, kind, d=None):
    """a request that the degree or the domain does not allow is an error and changes nothing"""
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    if d:
        q = 1
        qn = [c.num(0)] * 2 + [c.num(1)] * 2
        P = [ctrl_sparse(c, f"P{i}", 2, 3) for i in range(n)]
        if d == "u":
            s = surface(c, P, p, q, kn, qn)
        else:
            P = [list(r) for r in zip(*P)]
            s = surface(c, P, q, p, qn, kn)
        f = s.insert_knot_u if d == "u" else s.insert_knot_v
        state = lambda: (lst(s.knots_u if d == "u" else s.knots_v), lst(s.control_points_w))
    else:
        P = ctrl_sparse(c, "P", n, 3)
        crv = curve(c, P, p, kn)
        f, state = crv.insert_knot, lambda: (lst(crv.knots), lst(crv.control_pointsw))
    if kind == "over":
        if mult:
            t, s0 = b[1], mult[0]
        else:
            t, s0 = (b[0] + b[-1]) / 2, 0
        count = p - s0 + 1 + c.pick("extra", 3)
    elif kind in ("start", "end"):
        t, count = b[0 if kind == "start" else -1], 1 + c.pick("count", p)
    else:
        t = c.real("t", -20, 20)
        c.assume(t + c.q(*SEP) <= b[0] if kind == "below" else t >= b[-1] + c.q(*SEP))
        count = 1
    c.feasible()
    st, ex = c.call(f, t, count)
    c.check("refused", st == "err", f"{kind} x{count} accepted")
    k2, P2 = state()
    c.eqv("knots unchanged", k2, kn)
    c.eqm("points unchanged", P2, [[list(x) + [c.num(1)] * (4 - len(x)) for x in r] for r in P] if d else [list(x) + [c.num(1)] * (4 - len(x)) for x in P])


def remove_all(c, p, mult, pos, num):
    """removing several copies of a knot that were just inserted restores the curve"""
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, pos)
    c.feasible()
    crv = curve(c, P, p, kn)
    crv.insert_knot(t, num)
    P3 = lst(m.knot_removal(p, crv.knots, c.array(lst(crv.control_points)), t, 1e-4, num))
    if len(P3) != n:
        c.fail("control point count", f"{len(P3)}")
    c.eqm("control points", P3, P)


def dense(c, p, mult, density):
    """refinement in several rounds"""
    m = c.mod(NURBS)
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl_sparse(c, "P", n, 3)
    grid = list(b)
    for _ in range(density - 1):
        grid = [x for a, z in zip(grid, grid[1:]) for x in (a, (a + z) / 2)] + [grid[-1]]
    u = on_domain(c, "u", b)
    for g in grid:
        c.assume(c.Or(u + c.q(1, 1024) <= g, u >= g))
    c.feasible()
    P2, k2 = m.knot_refinement(p, c.array(kn), c.array(P), None, None, density)
    want = [x for g in grid for x in [g] * (p + 1 if g is grid[0] or g is grid[-1] else p)]
    P2, k2 = lst(P2), lst(k2)
    same_knots(c, "knots", k2, want)
    if len(P2) != len(want) - p - 1:
        c.fail("control point count", f"{len(P2)}")
    same_curve(c, "curve", kn, p, P, k2, P2, u)


def surf_insert(c, pu, pv, mu, mv, d, pos, count, w=None):
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu)
    bv, kv = clamped(c, "kv", pv, mv)
    P = [ctrl_sparse(c, f"P{i}", nv, 3, w) for i in range(nu)]
    b, kn, p, mult, n = (bu, ku, pu, mu, nu) if d == "u" else (bv, kv, pv, mv, nv)
    t = on_domain(c, "t", b, pos)
    x = on_domain(c, "x", with_t(b, pos, t))
    y = on_domain(c, "y", bv if d == "u" else bu, "any")
    c.feasible()
    s = surface(c, P, pu, pv, ku, kv)
    (s.insert_knot_u if d == "u" else s.insert_knot_v)(t, count)
    k2 = merged(kn, t, count, pos, p, mult)
    same_knots(c, "knots", s.knots_u if d == "u" else s.knots_v, k2)
    same_knots(c, "other knots", s.knots_v if d == "u" else s.knots_u, kv if d == "u" else ku)
    P2 = lst(s.control_points_w)
    sh = (nu + count, nv) if d == "u" else (nu, nv + count)
    c.check("shape", tuple(s.shape) == sh and (len(P2), len(P2[0])) == sh, f"{tuple(s.shape)}")
    u, v = (x, y) if d == "u" else (y, x)
    U2, V2 = (k2, kv) if d == "u" else (ku, k2)
    c.eqv("surface", ref_surface(U2, V2, pu, pv, P2, u, v, None, 4 if w else 3), ref_surface(ku, kv, pu, pv, P, u, v, None, 4 if w else 3))
    if not w:
        c.eqv("evaluate", lst(s.evaluate(c.array([u, v])))[:3], ref_surface(ku, kv, pu, pv, P, u, v))
    c.eqm("interval", lst(s.interval()), [[bu[0], bu[-1]], [bv[0], bv[-1]]])


def cases(tier):
    out = []
    deep = tier != "quick"
    for p in (1, 2, 3, 4) + ((5,) if deep else ()):
        for n in range(p + 1, p + (4 if p < 3 else 3) + (1 if deep and p < 5 else 0)):
            for mult in mults(n, p):
                for pos in params_of(len(mult) + 2)[1:]:
                    if pos == ("at", len(mult) + 1):
                        continue
                    s = mult[pos[1] - 1] if pos[0] == "at" else 0
                    nm = name_of(f"p{p}", mult, pos)
                    if p == s:
                        continue
                    for count in range(1, p - s + 1):
                        out.append(Case(f"insert {nm} x{count}", insert, (p, mult, pos, count, "one"), mods=[NURBS], weight=p * 10 + n))
                        if count == 1 and (p < 3 or not mult):
                            out.append(Case(f"insert rational {nm} x{count}", insert, (p, mult, pos, count, "pos"), mods=[NURBS], weight=p * 10 + n))
                        if count in (1, p - s):
                            out.append(Case(f"function {nm} x{count}", free_insert, (p, mult, pos, count), mods=[NURBS], weight=p * 10 + n))
                    if pos[0] == "in":
                        out.append(Case(f"greville {nm}", greville, (p, mult, pos, 1), mods=[NURBS], weight=p))
                        if p > 1:
                            out.append(Case(f"remove {nm}", remove, (p, mult, pos), mods=[NURBS], weight=p * 10 + n))
                    if p < 3:
                        out.append(Case(f"insert signed {nm}", insert, (p, mult, pos, 1, "one", -4), mods=[NURBS], weight=p * 10 + n))
                    out.append(Case(f"multiply {nm}", multiply, (p, mult, pos), mods=[NURBS], weight=p * 10 + n))
                if n <= p + 2 or deep:
                    for add in (0, 1):
                        if p > 1 and (add or (mult and min(mult) < p)):
                            out.append(Case(f"refine p{p} {name_of(mult)} add{add}", refine, (p, mult, add), mods=[NURBS], weight=p * 10 + n + 10))
    for p in (1, 2, 3):
        for mult in mults(p + 1, p) + mults(p + 2, p):
            for kind in ("over", "start", "end", "below", "above"):
                out.append(Case(f"refused p{p} {name_of(mult)} {kind}", refused, (p, mult, kind), mods=[NURBS]))
    for d in "uv":
        for kind in ("over", "start", "end", "below", "above"):
            out.append(Case(f"refused surface {d} {kind}", refused, (2, (1,), kind, d), mods=[NURBS]))
    for p, mult, pos, num in ((2, (), ("in", 0), 2), (3, (), ("in", 0), 2), (3, (), ("in", 0), 3), (2, (1,), ("in", 1), 2), (3, (1,), ("in", 0), 2)):
        out.append(Case(f"remove several p{p} {name_of(mult, pos)} x{num}", remove_all, (p, mult, pos, num), mods=[NURBS], weight=40))
    for p, mult, dens in ((2, (), 2), (2, (1,), 2), (1, (1,), 2), (2, (), 3), (3, (), 2)):
        out.append(Case(f"refine density p{p} {name_of(mult)} {dens}", dense, (p, mult, dens), mods=[NURBS], weight=60))
    shapes = [(1, 2, (), (1,)), (2, 1, (1,), ()), (2, 2, (), ())] + ([(2, 3, (1,), ()), (3, 3, (1,), (2,))] if deep else [])
    for pu, pv, mu, mv in shapes:
        for d, mult, p in (("u", mu, pu), ("v", mv, pv)):
            for pos in params_of(len(mult) + 2)[1:]:
                if pos == ("at", len(mult) + 1):
                    continue
                s = mult[pos[1] - 1] if pos[0] == "at" else 0
                for count in range(1, p - s + 1):
                    out.append(Case(f"surface {d} p{pu}{pv} {name_of(mu, mv, pos)} x{count}", surf_insert, (pu, pv, mu, mv, d, pos, count), mods=[NURBS], weight=60))
                    if count == 1:
                        out.append(Case(f"surface rational {d} p{pu}{pv} {name_of(mu, mv, pos)}", surf_insert, (pu, pv, mu, mv, d, pos, count, "pos"), mods=[NURBS], weight=60))
    for p in (1, 2, 3):
        for at in (("in", 0), ("at", 1), ("in", 1)):
            for count in range(1, p + 1 - (at[0] == "at")):
                out.append(Case(f"unclamped p{p} {at} x{count}", loose, (p, p + 2, at, count), mods=[NURBS], weight=p * 10))
    return out
