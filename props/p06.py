from common import *

BOUNDS = ("curves of degree 1-3 with up to degree+3 control points, every interior multiplicity pattern, polynomial and rational (weights in [1/4,4]); knots in "
          "[1/2,8] (with negative ones in separate cases) at least 1/64 apart; trim bounds on knots or at least 1/64 from every knot; surfaces up to degree (2,1); "
          "sample parameter anywhere in the domain")
OUTSIDE = "higher degrees, unclamped and periodic knot vectors, rounding"


def piece(c, label, crv, kn, p, P, u, t, W=None, deg=None):
    """the object's curve at t is the reference at u"""
    if W is None:
        c.eqv(label, lst(crv.evaluate(t))[:3], ref_curve(kn, p, P, u))
    else:
        c.eqv(label, lst(crv.evaluate(t))[:3], ref_curve(kn, p, P, u, W))


def setup_curve(c, p, mult, w, lo=None):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult, lo=lo)
    P = ctrl_sparse(c, "P", n, 3, w)
    return n, b, kn, P, ([r[3] for r in P] if w == "pos" else None)


def reverse(c, how, p, mult, w, lo=None):
    m = c.mod(NURBS)
    n, b, kn, P, W = setup_curve(c, p, mult, w, lo)
    u = on_domain(c, "u", b)
    c.feasible()
    if W:
        weight_positive(c, kn, n, p, u, W)
    crv = curve(c, P, p, kn)
    r = m.reverse_curve(crv) if how == "reverse_curve" else crv.flip()
    it = r.interval()
    c.eqv("domain", [it[0], it[1]], [b[0], b[-1]])
    same_knots(c, "knots", r.knots, [b[0] + b[-1] - x for x in reversed(kn)])
    P2 = lst(r.control_pointsw)
    if len(P2) != n:
        c.fail("control point count")
    t = b[0] + b[-1] - u
    k2 = lst(r.knots)
    if u is b[0] or any(u is x for x in b):
        # at a knot either neighbouring polynomial piece gives the point
        c.eqv("point", ref_curve(k2, p, P2, t, None if not W else [x[3] for x in P2]), ref_curve(kn, p, P, u, W))
    else:
        c.eqv("point", lst(r.evaluate(t))[:3], ref_curve(kn, p, P, u, W))
    c.eqm("original untouched", lst(crv.control_pointsw)[:1], [P[0][:3] + [P[0][3] if W else 1]])
    same_knots(c, "original knots", crv.knots, kn)


def copy_safe(c, how, p, mult):
    """the result is an ordinary curve: copies and edits of it work"""
    m = c.mod(NURBS)
    n, b, kn, P, W = setup_curve(c, p, mult, None)
    crv = curve(c, P, p, kn)
    r = m.reverse_curve(crv) if how == "reverse_curve" else crv.flip()
    d = r.copy()
    same_knots(c, "copied knots", d.knots, [b[0] + b[-1] - x for x in reversed(kn)])
    c.eqm("copied points", lst(d.control_points), [x[:3] for x in reversed(P)])


def trim(c, p, mult, a, e, w, lo=None, swap=False):
    n, b, kn, P, W = setup_curve(c, p, mult, w, lo)
    t1 = on_domain(c, "ta", b, a)
    b2 = with_t(b, a, t1)
    if e[0] == "in" and a[0] == "in" and e[1] == a[1]:
        # second cut in the same interval, after the first
        t2 = c.real("tb")
        sep(c, t1, t2)
        sep(c, t2, b[e[1] + 1])
        c.assume(t2 < b[e[1] + 1])
        for x in b[:e[1] + 1]:
            c.assume(x < t2)
    else:
        t2 = on_domain(c, "tb", b, e)
        c.assume(t1 < t2)
    inner = [x for i, x in enumerate(b) if (i > a[1]) and (i < e[1] or (e[0] == "in" and i <= e[1]))]
    bb = [t1] + inner + [t2]
    u = on_domain(c, "u", bb)
    c.feasible()
    if W:
        weight_positive(c, kn, n, p, u, W)
    crv = curve(c, P, p, kn)
    st, r = c.call(crv.trim, t2, t1) if swap else c.call(crv.trim, t1, t2)
    if st == "err":
        c.fail("trim", repr(r)[:200])
    it = r.interval()
    c.eq("length of the domain", it[1] - it[0], t2 - t1)
    k2, P2 = lst(r.knots), lst(r.control_pointsw)
    if len(k2) != len(P2) + p + 1:
        c.fail("consistent sizes", f"{len(k2)} knots, {len(P2)} points")
    for x, y in zip(k2, k2[1:]):
        c.le("knots non-decreasing", x, y)
    c.eqv("ends", [k2[0], k2[p], k2[-p - 1], k2[-1]], [it[0], it[0], it[1], it[1]])
    s = it[0] + (u - t1)
    c.eqv("point", lst(r.evaluate(s))[:3], ref_curve(kn, p, P, u, W))
    same_knots(c, "original knots", crv.knots, kn)


def normalize(c, p, mult, w, lo=None):
    n, b, kn, P, W = setup_curve(c, p, mult, w, lo)
    u = on_domain(c, "u", b)
    c.feasible()
    if W:
        weight_positive(c, kn, n, p, u, W)
    crv = curve(c, P, p, kn)
    before = lst(crv.evaluate(u))[:3]
    c.eqv("before", before, ref_curve(kn, p, P, u, W))
    crv.normalize_knots()
    L = b[-1] - b[0]
    it = crv.interval()
    c.eqv("domain", [it[0], it[1]], [0, 1])
    same_knots(c, "knots", crv.knots, [(x - b[0]) / L for x in kn])
    c.eqv("point", lst(crv.evaluate((u - b[0]) / L))[:3], ref_curve(kn, p, P, u, W))
    k2 = lst(crv.knots)
    c.eqv("abscissae", lst(crv.greville_abscissae), [sum_(k2[i + 1:i + p + 1]) / p for i in range(n)])


def normalize_surface(c, pu, pv, mu, mv, lo=None):
    nu, nv = pu + 1 + sum(mu), pv + 1 + sum(mv)
    bu, ku = clamped(c, "ku", pu, mu, lo=lo)
    bv, kv = clamped(c, "kv", pv, mv, lo=lo)
    P = [ctrl_sparse(c, f"P{i}", nv, 3) for i in range(nu)]
    u, v = on_domain(c, "u", bu), on_domain(c, "v", bv)
    c.feasible()
    s = surface(c, P, pu, pv, ku, kv)
    s.normalize_knots()
    Lu, Lv = bu[-1] - bu[0], bv[-1] - bv[0]
    it = s.interval()
    c.eqv("domain", [it[0][0], it[0][1], it[1][0], it[1][1]], [0, 1, 0, 1])
    same_knots(c, "knots u", s.knots_u, [(x - bu[0]) / Lu for x in ku])
    same_knots(c, "knots v", s.knots_v, [(x - bv[0]) / Lv for x in kv])
    c.eqv("point", lst(s.evaluate(c.array([(u - bu[0]) / Lu, (v - bv[0]) / Lv]))), ref_surface(ku, kv, pu, pv, P, u, v))


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3) if q else (1, 2, 3, 4):
        for n in range(p + 1, p + (4 if p < 3 else 3) if q else p + 5):
            for mult in mults(n, p):
                for how in ("reverse_curve", "flip"):
                    add("reverse", reverse, how, p, mult, None)
                    if n <= p + 2:
                        add("reverse", reverse, how, p, mult, "pos")
                add("normalize", normalize, p, mult, None)
                if n <= p + 2:
                    add("normalize", normalize, p, mult, "pos")
                    add("normalize signed", normalize, p, mult, None, -4)
                    add("copy of the reverse", copy_safe, "flip", p, mult)
                    add("copy of the reverse", copy_safe, "reverse_curve", p, mult)
                    k = len(mult) + 2
                    pos = [("at", i) for i in range(k)] + [("in", i) for i in range(k - 1)]
                    key = {x: (x[1] + (0.5 if x[0] == "in" else 0)) for x in pos}
                    for a in pos:
                        for e in pos:
                            if key[a] < key[e] or (a == e and a[0] == "in"):
                                add("trim", trim, p, mult, a, e, None, weight=2)
                                if p == 2 and len(mult) == 1:
                                    add("trim", trim, p, mult, a, e, "pos", weight=3)
                    if p == 2:
                        add("trim swapped", trim, p, mult, ("in", 0), ("at", k - 1), None, None, True)
                        add("trim signed", trim, p, mult, ("at", 0), ("in", k - 2), None, -4)
    for pu, pv, mu, mv in [(1, 1, (), ()), (2, 1, (), ()), (1, 2, (1,), ()), (2, 2, (1,), (1,))]:
        add("normalize surface", normalize_surface, pu, pv, mu, mv)
    return out
