from common import *

BOUNDS = ("periodic curves of degree 1-3 over 2 to 6 symbolic points (polynomial, and rational with weights in [1/4,4]), uniform default knots and symbolic periodic "
          "knots with intervals in [1/8,4]; sample parameter anywhere in the domain (on knots, or at least 1/64 away from them), shifted by -2..2 periods; "
          "knot insertion, split and trim at every position")
OUTSIDE = "higher degrees, more than one inserted knot, rounding, surfaces (no periodic surfaces exist)"


def points(c, n, w):
    P = ctrl_sparse(c, "P", n, 3, w)
    return P


def not_wrapped(c, P, p):
    """the points are not themselves a wrapped list"""
    n = len(P)
    c.assume(c.Or(*[c.Or(P[i][j] + c.q(1, 1024) <= P[n - p + i][j], P[i][j] >= P[n - p + i][j] + c.q(1, 1024))
                    for i in range(p) for j in range(len(P[i])) if P[i][j] is not P[n - p + i][j]]))


def uniform(c, n, p):
    return [c.num(i - p) for i in range(n + 2 * p + 1)]


def periodic_knots(c, n, p):
    d = [c.real(f"d{i}", c.q(1, 8), 4) for i in range(n)]
    lo = c.real("k0", -8, 8)
    kn = [None] * (n + 2 * p + 1)
    kn[p] = lo
    for i in range(p + 1, n + 2 * p + 1):
        kn[i] = kn[i - 1] + d[(i - 1 - p) % n]
    for i in range(p - 1, -1, -1):
        kn[i] = kn[i + 1] - d[(i - p) % n]
    return kn


def build(c, p, n, w, how):
    """(curve, knots, wrapped points)"""
    m = c.mod(NURBS)
    P = points(c, n, w)
    Q = P + [P[i % n] for i in range(p)]
    if how in ("ctor", "make"):
        not_wrapped(c, P, p) if n > p else None
    if how == "ctor":
        crv = m.NURBSCurve(c.array(P), p, None, 1)
    elif how == "make":
        crv = m.NURBSCurve(c.array(P), p)
        crv.make_periodic()
    elif how == "wrapped":
        crv = m.NURBSCurve(c.array(Q), p, None, 1)
    if how == "knots":
        kn = periodic_knots(c, n, p)
        crv = m.NURBSCurve(c.array(Q), p, c.array(kn), 1)
    else:
        kn = uniform(c, n, p)
    return crv, kn, Q


def W(Q):
    return [r[3] for r in Q] if len(Q[0]) == 4 else None


def sample(c, kn, p, n, nm="u"):
    return on_domain(c, nm, kn[p:p + n + 1])


def well(c, Q, kn, p, u):
    if W(Q):
        weight_positive(c, kn, len(Q), p, u, W(Q))


def ref(c, Q, kn, p, u):
    return ref_curve(kn, p, Q, u, W(Q))


def definition(c, p, n, w, how):
    crv, kn, Q = build(c, p, n, w, how)
    u = sample(c, kn, p, n)
    c.feasible()
    well(c, Q, kn, p, u)
    same_knots(c, "knots", crv.knots, kn)
    it = crv.interval()
    c.eqv("domain", [it[0], it[1]], [kn[p], kn[p + n]])
    c.check("flag", bool(crv.periodic))
    c.eqm("points", [r[:3] for r in lst(crv.control_points)], [r[:3] for r in Q])
    if W(Q):
        c.eqv("weights", lst(crv.weights), W(Q))
    c.eqv("point", lst(crv.evaluate(u))[:3], ref(c, Q, kn, p, u))


def repeats(c, p, n, w, how, k):
    crv, kn, Q = build(c, p, n, w, how)
    u = sample(c, kn, p, n)
    c.feasible()
    well(c, Q, kn, p, u)
    t = u + k * (kn[p + n] - kn[p])
    want = ref(c, Q, kn, p, u)
    c.eqv("point", lst(crv.evaluate(t))[:3], want)
    c.eqv("homogeneous point", lst(crv.evaluate4d(t))[:3], want)
    c.eqv("multi", lst(crv.evaluate_multi(c.array([u, t])))[1], want)
    if not w:
        for d in range(1, p if u is kn[p] or u is kn[p + n] else p + 1):
            c.eqv(f"derivative {d} (1)", lst(crv.derivatives1(t, d))[d], ref_curve_d(kn, p, Q, u, d))
            c.eqv(f"derivative {d} (2)", lst(crv.derivatives2(t, d))[d], ref_curve_d(kn, p, Q, u, d))
    if p >= 2:
        c.eqv("derivative", lst(crv.derivative(t)), lst(crv.derivative(u)))
        if p > 2 or not (u is kn[p] or u is kn[p + n]):
            c.eqv("second derivative", lst(crv.second_derivative(t)), lst(crv.second_derivative(u)))


def closed(c, p, n, w, how):
    crv, kn, Q = build(c, p, n, w, how)
    a, b = kn[p], kn[p + n]
    c.feasible()
    for x in (a, b):
        well(c, Q, kn, p, x)
    c.eqv("start is end", lst(crv.start()), lst(crv.end()))
    c.check("closed", bool(crv.is_closed()) and not bool(crv.is_open()))
    for d in range(1, p):
        c.eqv(f"derivative {d} at the seam", lst(crv.derivatives1(a, d))[d], lst(crv.derivatives1(b, d))[d])


def opened(c, p, n, w, how):
    m = c.mod(NURBS)
    crv, kn, Q = build(c, p, n, w, how)
    c.feasible()
    crv.make_open()
    o = m.NURBSCurve(c.array(Q[:n]), p)
    c.check("flag", not crv.periodic)
    same_knots(c, "knots", crv.knots, lst(o.knots))
    c.eqm("points", lst(crv.control_pointsw), lst(o.control_pointsw))
    it, io = crv.interval(), o.interval()
    c.eqv("domain", [it[0], it[1]], [io[0], io[1]])
    c.eqv("ends", lst(crv.start()) + lst(crv.end()), Q[0][:3] + Q[n - 1][:3])
    k = crv.knots
    crv.make_open()
    c.eqm("an open curve stays", lst(crv.control_pointsw), lst(o.control_pointsw))
    crv.make_periodic()
    same_knots(c, "periodic again", crv.knots, uniform(c, n, p))


def kept(c, p, n, w, how, op, ins=None):
    """operations that must leave the closed curve what it is"""
    m = c.mod(NURBS)
    crv, kn, Q = build(c, p, n, w, how)
    u = sample(c, kn, p, n)
    a, b = kn[p], kn[p + n]
    if ins:
        t = on_domain(c, "t", kn[p:p + n + 1], ins)
    c.feasible()
    well(c, Q, kn, p, u)
    if ins:
        crv.insert_knot(t, 1)
    f = (lambda x: x)
    if op == "copy":
        crv = crv.copy()
    elif op == "pickle":
        g, ar, *rest = crv.__reduce__()
        crv = g(*ar)
        if rest and rest[0] is not None:
            crv.__setstate__(rest[0])
    elif op == "serialize":
        crv = m.NURBSCurve.deserialize(crv.serialize())
    elif op == "reverse":
        crv = m.reverse_curve(crv)
        f = (lambda x: a + b - x)
    elif op == "flip":
        crv = crv.flip()
        f = (lambda x: a + b - x)
    elif op == "normalize":
        crv.normalize_knots()
        f = (lambda x: (x - a) / (b - a))
    c.check("flag", bool(crv.periodic))
    it = crv.interval()
    c.eqv("domain", sorted_(op, [f(a), f(b)]), [it[0], it[1]])
    want = ref(c, Q, kn, p, u)
    c.eqv("point", lst(crv.evaluate(f(u)))[:3], want)
    c.eqv("repeats", lst(crv.evaluate(f(u) + (it[1] - it[0])))[:3], want)


def sorted_(op, ab):
    return ab[::-1] if op in ("reverse", "flip") else ab


def split(c, p, n, w, how, pos):
    m = c.mod(NURBS)
    crv, kn, Q = build(c, p, n, w, how)
    bs = kn[p:p + n + 1]
    t = on_domain(c, "t", bs, pos)
    u = on_domain(c, "u", with_t(bs, pos, t))
    c.feasible()
    well(c, Q, kn, p, u)
    st, r = c.call(m.split_curve, crv, t, 1e-7, False)
    if st == "err":
        c.fail("split", repr(r)[:200])
    one, two = r
    i1, i2 = one.interval(), two.interval()
    c.eqv("domains", [i1[0], i1[1], i2[0], i2[1]], [bs[0], t, t, bs[-1]])
    c.check("open pieces", not one.periodic and not two.periodic)
    want = ref(c, Q, kn, p, u)
    if bool(u <= t):
        c.eqv("first", lst(one.evaluate(u))[:3], want)
    if bool(u >= t):
        c.eqv("second", lst(two.evaluate(u))[:3], want)


def trim(c, p, n, w, how, a, e):
    crv, kn, Q = build(c, p, n, w, how)
    b = kn[p:p + n + 1]
    t1 = on_domain(c, "ta", b, a)
    t2 = on_domain(c, "tb", b, e)
    inner = [x for i, x in enumerate(b) if (i > a[1]) and (i < e[1] or (e[0] == "in" and i <= e[1]))]
    u = on_domain(c, "u", [t1] + inner + [t2])
    c.feasible()
    well(c, Q, kn, p, u)
    st, r = c.call(crv.trim, t1, t2)
    if st == "err":
        c.fail("trim", repr(r)[:200])
    it = r.interval()
    c.eq("length of the domain", it[1] - it[0], t2 - t1)
    c.check("open", not r.periodic)
    c.eqv("point", lst(r.evaluate(it[0] + (u - t1)))[:3], ref(c, Q, kn, p, u))
    c.check("the curve stays periodic", bool(crv.periodic))
    same_knots(c, "knots stay", crv.knots, kn)


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3) if q else (1, 2, 3, 4):
        for n in range(p + 1, p + (3 if q else 4)):
            for how in ("ctor", "make", "wrapped", "knots"):
                for w in (None, "pos"):
                    if w and how in ("make",):
                        continue
                    big = w and how == "knots" and (p == 3 or n > p + 1)
                    if not big:
                        add("definition", definition, p, n, w, how)
                        add("closed", closed, p, n, w, how)
                    if how in ("ctor", "knots") and not big:
                        for k in (-2, -1, 1, 2) if n == p + 1 and not w else (1,):
                            add("repeats", repeats, p, n, w, how, k, weight=2)
                    if not w or n == p + 1:
                        add("opened", opened, p, n, w, how) if how != "knots" else None
            for op in ("copy", "pickle", "serialize", "reverse", "flip", "normalize"):
                for how in ("ctor", "knots"):
                    if how == "knots" and p == 3 and op == "normalize" and n > p + 1:
                        continue
                    add("kept", kept, p, n, None, how, op)
                if p <= 2 and n == p + 1:
                    add("kept", kept, p, n, "pos", "ctor", op)
            b = n + 1
            for pos in params_of(b):
                if pos[0] == "in" or p > 1 or True:
                    if pos != ("at", 0) and pos != ("at", b - 1):
                        add("split", split, p, n, None, "ctor", pos)
                        if n == p + 1 and p < 3:
                            add("split", split, p, n, None, "knots", pos)
                    if (pos[0] == "in" or p > 1) and n == p + 1:
                        for op in ("none", "copy", "pickle", "serialize", "reverse", "flip"):
                            add("kept after insertion", kept, p, n, None, "ctor", op, pos)
            if n == p + 1 or p == 1:
                key = lambda x: x[1] + (0.5 if x[0] == "in" else 0)
                for a in params_of(b):
                    for e in params_of(b):
                        if key(a) < key(e):
                            add("trim", trim, p, n, None, "ctor", a, e)
    return out
