from common import *

BOUNDS = ("curves of degree 1-3 with up to degree+3 control points (polynomial and rational, every coordinate, weight and knot symbolic), plus curves made "
          "by knot insertion, splitting, reversing and normalizing; byte strings cut at every 4-byte boundary and headers with symbolic degree and counts; "
          "pickling state of curves, ruled and bilinear surfaces")
OUTSIDE = "larger curves; byte strings from other versions of the format; damage inside the coordinate data"


def content(c, label, d, p, kn, P, us=()):
    c.check(label + " degree", d.degree == p, f"{d.degree}")
    same_knots(c, label + " knots", d.knots, kn)
    c.eqm(label + " points", lst(d.control_pointsw), P)
    it = d.interval()
    c.eqv(label + " domain", [it[0], it[1]], [kn[0], kn[-1]])
    n = len(P)
    c.eqv(label + " abscissae", lst(d.greville_abscissae), [sum_(kn[i + 1:i + p + 1]) / p for i in range(n)])
    c.check(label + " periodic flag", not d.periodic)


def make(c, p, mult, w):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl(c, "P", n, 3, w)
    u = on_domain(c, "u", b)
    c.feasible()
    crv = curve(c, P, p, kn)
    Q = [r if len(r) == 4 else r + [c.num(1)] for r in P]
    return n, b, kn, Q, crv, u


def roundtrip(c, p, mult, w):
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, p, mult, w)
    data = crv.serialize()
    d = m.NURBSCurve.deserialize(data)
    content(c, "copy", d, p, kn, P)
    content(c, "original", crv, p, kn, P)
    if w is None:
        c.eqv("point", lst(d.evaluate(u))[:3], ref_curve(kn, p, P, u))
    again = d.serialize()
    c.check("same bytes", len(again) == len(data) and again == data)
    d.insert_knot((b[0] + b[1]) / 2, 1)
    content(c, "original after", crv, p, kn, P)


def derived(c, how):
    """objects produced by other operations serialize too"""
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, 2, (1,), None)
    if how == "insert":
        crv.insert_knot((b[0] + b[1]) / 2, 1)
    elif how == "split":
        crv = m.split_curve(crv, (b[0] + b[1]) / 2)[1]
    elif how == "reverse":
        crv = m.reverse_curve(crv)
    elif how == "flip":
        crv = crv.flip()
    elif how == "normalize":
        crv.normalize_knots()
    elif how == "copy":
        crv = crv.copy()
    elif how == "trim":
        crv = crv.trim(b[0], (b[1] + b[2]) / 2)
    k2, P2 = lst(crv.knots), lst(crv.control_pointsw)
    d = m.NURBSCurve.deserialize(crv.serialize())
    content(c, how, d, 2, k2, P2)


def closed(c, p, n):
    """periodic curves keep their flag and their geometry"""
    m = c.mod(NURBS)
    P = ctrl_sparse(c, "P", n, 3)
    crv = m.NURBSCurve(c.array(P), p, None, True)
    d = m.NURBSCurve.deserialize(crv.serialize())
    c.check("flag", bool(d.periodic) == bool(crv.periodic))
    c.eqm("points", lst(d.control_pointsw), lst(crv.control_pointsw))
    c.eqv("knots", lst(d.knots), lst(crv.knots))
    u = c.real("u", 0, 1)
    c.eqv("point", lst(d.evaluate(u))[:3], lst(crv.evaluate(u))[:3])


def truncated(c, p, mult, cut):
    """a prefix of a valid string is rejected with an error, never read past its end"""
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, p, mult, None)
    data = crv.serialize()
    k = cut if cut >= 0 else len(data) + cut
    st, ex = c.call(m.NURBSCurve.deserialize, data[:k])
    c.check("rejected", st == "err", f"prefix of {k} of {len(data)} bytes accepted")


def header(c, field, p=2):
    """a header that does not describe the data that follows is rejected"""
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, p, (), None)
    data = crv.serialize()
    off = {"magic": 0, "version": 4, "degree": 8, "points": 16, "knots": 20}[field]
    vals = {"magic": (b"NRBD", b"CBRN", b"XXXX"), "version": (0, 2, 255), "degree": (0, 1, 3, 4, 7, 2 ** 31 - 1),
            "points": (0, 1, 2, 4, 5, 1000, 2 ** 31 - 1), "knots": (0, 1, 5, 7, 1000, 2 ** 31 - 1)}[field]
    v = vals[c.pick("value", len(vals))]
    new = v if isinstance(v, bytes) else v.to_bytes(4, "little")
    bad = data[:off] + new + data[off + 4:]
    st, ex = c.call(m.NURBSCurve.deserialize, bad)
    c.check("rejected", st == "err", f"{field}={v}")


def wrong_type(c):
    m = c.mod(NURBS)
    for x in (None, "NRBC", 5, [1, 2]):
        st, ex = c.call(m.NURBSCurve.deserialize, x)
        c.check("rejected", st == "err", f"{x!r}")


def pickled(c, p, mult, w):
    n, b, kn, P, crv, u = make(c, p, mult, w)
    if c.sym:
        f, a = crv.__reduce__()[:2]
        d = f(*a)
    else:
        import pickle
        d = pickle.loads(pickle.dumps(crv))
    content(c, "copy", d, p, kn, P)


def state(c, p, mult, w):
    """the state dictionary rebuilds the curve"""
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, p, mult, w)
    d = m.NURBSCurve(c.array([[0, 0, 0], [1, 1, 1]]), 1)
    d.__setstate__(crv.__getstate__())
    c.check("degree", d.degree == p)
    same_knots(c, "knots", d.knots, kn)
    c.eqm("points", lst(d.control_pointsw), P)
    it = d.interval()
    c.eqv("domain", [it[0], it[1]], [kn[0], kn[-1]])
    W = [r[3] for r in P]
    if w:
        weight_positive(c, kn, n, p, u, W)
    c.eqv("point", lst(d.evaluate(u))[:3], ref_curve(kn, p, P, u, W if w else None))


def tuple_form(c, p, mult):
    m = c.mod(NURBS)
    n, b, kn, P, crv, u = make(c, p, mult, None)
    cp, k, deg, per = crv.astuple()
    d = m.NURBSCurve(c.array(cp), deg, c.array(k), per)
    content(c, "rebuilt", d, p, kn, P)


def patches(c, kind):
    pm = c.mod("mmcore.geom.parametric")
    nm = c.mod(NURBS)
    u, v = c.real("u", 0, 1), c.real("v", 0, 1)
    if kind == "bilinear":
        s = pm.BiLinear(*[c.array(c.reals(x, 3, -8, 8)) for x in "abcd"])
    else:
        A, B = ctrl_sparse(c, "A", 3, 3), ctrl_sparse(c, "B", 3, 3)
        s = pm.Ruled(nm.NURBSCurve(c.array(A), 2), nm.NURBSCurve(c.array(B), 1))
    f, a = s.__reduce__()[:2]
    d = f(*a)
    uv = c.array([u, v])
    if kind == "ruled":
        c.assume(c.Or(u + c.q(1, 64) <= c.q(1, 2), u >= c.q(33, 64)))
    c.eqv("point", lst(d.evaluate(uv)), lst(s.evaluate(uv)))


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3):
        for n in range(p + 1, p + 4 if q else p + 6):
            for mult in mults(n, p):
                for w in (None, "pos"):
                    add("roundtrip", roundtrip, p, mult, w)
                    add("pickle", pickled, p, mult, w)
                    if n <= p + 2:
                        add("state", state, p, mult, w)
                add("tuple", tuple_form, p, mult)
    for how in ("insert", "split", "reverse", "flip", "normalize", "copy", "trim"):
        add("derived", derived, how)
    for p, n in ((2, 4), (3, 5)):
        add("periodic", closed, p, n)
    for p, mult in ((1, ()), (2, (1,))):
        size = 24 + 8 * (4 * (p + 1 + sum(mult)) + 2 * p + 2 + sum(mult))
        for cut in range(0, size, 4 if p == 1 else 16):
            add("truncated", truncated, p, mult, cut)
        for cut in (-1, -2, -4, -7, -8):
            add("truncated", truncated, p, mult, cut)
    for f in ("magic", "version", "degree", "points", "knots"):
        add("header", header, f)
    add("wrong type", wrong_type)
    for kind in ("bilinear", "ruled"):
        add("patch", patches, kind)
    return out
