from common import *

BOUNDS = ("curves of degree 1-3 and surfaces up to (2,1) with every interior multiplicity pattern up to degree+2 control points, all coordinates, weights and knots "
          "symbolic; pairs that differ in exactly one of them by any amount")
OUTSIDE = "hash collisions, signed zeros and not-a-number coordinates, equality of different descriptions of one shape"
ASSUMPTIONS = ["different contents have different hashes"]


def same(c, label, a, b):
    c.check(label + " equal", bool(a == b) and bool(b == a) and not (a != b))
    c.check(label + " hash", hash(a) == hash(b))
    c.check(label + " geometry hash", a.geometry_hash() == b.geometry_hash() and a.geometry_hash(True) == b.geometry_hash(True))


def differ(c, label, a, b):
    c.check(label + " different", not (a == b) and not (b == a) and bool(a != b))


def build(c, p, mult, w):
    n = p + 1 + sum(mult)
    b, kn = clamped(c, "k", p, mult)
    P = ctrl(c, "P", n, 3, w)
    c.feasible()
    return n, b, kn, P


def equal(c, p, mult, w):
    m = c.mod(NURBS)
    n, b, kn, P = build(c, p, mult, w)
    one, two = curve(c, P, p, kn), curve(c, P, p, kn)
    same(c, "rebuilt", one, two)
    h = hash(one)
    one.evaluate((b[0] + b[1]) / 2)
    one.derivative((b[0] + b[1]) / 2)
    c.check("stable", hash(one) == h)
    same(c, "copy", one, one.copy())
    same(c, "deep copy", one, one.__deepcopy__({}))
    same(c, "deserialized", one, m.NURBSCurve.deserialize(one.serialize()))
    f, a = one.__reduce__()[:2]
    same(c, "pickled", one, f(*a))
    d = m.NURBSCurve(c.array([[0, 0, 0], [1, 1, 1]]), 1)
    d.__setstate__(one.__getstate__())
    same(c, "state", one, d)
    c.check("as key", len({one: 1, two: 2}) == 1)


def unequal(c, p, mult, w, what):
    """one different number anywhere makes two curves different"""
    n, b, kn, P = build(c, p, mult, w)
    one = curve(c, P, p, kn)
    Q, k2 = [list(r) for r in P], list(kn)
    if what == "point":
        i, j = c.pick("i", n), c.pick("j", 3)
        x = c.real("x", -20, 20)
        c.assume(c.Or(x + c.q(1, 1024) <= Q[i][j], x >= Q[i][j] + c.q(1, 1024)))
        Q[i][j] = x
    elif what == "weight":
        i = c.pick("i", n)
        x = c.real("x", c.q(1, 8), 20)
        Q = [r if len(r) == 4 else r + [c.num(1)] for r in Q]
        c.assume(c.Or(x + c.q(1, 1024) <= Q[i][3], x >= Q[i][3] + c.q(1, 1024)))
        Q[i][3] = x
    elif what == "knot":
        i = p + 1 + c.pick("i", max(1, sum(mult))) if mult else 0
        x = c.real("x", -20, 20)
        if mult:
            c.assume(c.And(x >= k2[i - 1], x <= k2[i + 1]))
        c.assume(c.Or(x + c.q(1, 1024) <= k2[i], x >= k2[i] + c.q(1, 1024)))
        if mult:
            k2[i] = x
        else:
            c.assume(x + c.q(1, 64) <= k2[-1])
            k2[:p + 1] = [x] * (p + 1)
    c.feasible()
    two = curve(c, Q, p, k2)
    differ(c, what, one, two)


def edited(c, op):
    m = c.mod(NURBS)
    n, b, kn, P = build(c, 2, (1,), None)
    one, two = curve(c, P, 2, kn), curve(c, P, 2, kn)
    if op == "insert":
        two.insert_knot((b[0] + b[1]) / 2, 1)
    elif op == "points":
        x = c.real("x", c.q(1, 16), 4)
        two.control_points = c.array([[r[0] + x] + r[1:3] for r in P])
    elif op == "weights":
        two.weights = c.array([c.num(1), c.q(3, 2), c.num(1), c.num(1)])
    elif op == "knots":
        two.knots = c.array([k * 2 for k in kn])
        c.assume(b[0] >= c.q(1, 4))
    c.feasible()
    differ(c, op, one, two)
    if op == "points":
        two.control_points = c.array([r[:3] for r in P])
    elif op == "weights":
        two.weights = c.array([c.num(1)] * 4)
    elif op == "knots":
        two.knots = c.array(kn)
    if op != "insert":
        same(c, op + " undone", one, two)


def others(c, kind):
    import numpy as np
    if kind == "curve":
        n, b, kn, P = build(c, 2, (), None)
        x = curve(c, P, 2, kn)
        y = surface(c, [P, P], 1, 2, [c.num(0)] * 2 + [c.num(1)] * 2, kn)
    else:
        P = [ctrl_sparse(c, f"P{i}", 2, 3) for i in range(2)]
        k = [c.num(0)] * 2 + [c.num(1)] * 2
        x = surface(c, P, 1, 1, k, k)
        y = curve(c, P[0], 1, k)
    for o in (None, 0, "x", 1.5, (1, 2), [1, 2], {}, object(), y):
        st, r = c.call(lambda: (x == o, x != o))
        if st == "err":
            c.fail("comparable", f"comparison with {type(o).__name__} raised {type(r).__name__}")
        c.check("not equal", not r[0] and r[1], f"{o!r}")


def surf(c, pu, pv, nu, nv, what):
    bu, ku = clamped(c, "ku", pu, (1,) * (nu - pu - 1))
    bv, kv = clamped(c, "kv", pv, (1,) * (nv - pv - 1))
    P = [ctrl(c, f"P{i}", nv, 3, "pos") for i in range(nu)]
    one = surface(c, P, pu, pv, ku, kv)
    Q, k2u, k2v = [[list(x) for x in r] for r in P], list(ku), list(kv)
    if what == "same":
        c.feasible()
        two = surface(c, Q, pu, pv, ku, kv)
        same(c, "rebuilt", one, two)
        same(c, "copy", one, one.copy())
        h = hash(one)
        one.evaluate(c.array([bu[0], bv[0]]))
        c.check("stable", hash(one) == h)
        return
    x = c.real("x", -20, 20)
    if what == "point":
        i, j, k = c.pick("i", nu), c.pick("j", nv), c.pick("k", 4)
        old = Q[i][j][k]
        if k == 3:
            c.assume(x >= c.q(1, 8))
        Q[i][j][k] = x
    else:
        kk = k2u if what == "knots_u" else k2v
        old = kk[-1]
        c.assume(x >= kk[0] + 20 if False else x >= kk[-1 - (pu if what == "knots_u" else pv) - 1])
        for i in range(len(kk)):
            if eq_(kk[i], old):
                kk[i] = x
    c.assume(c.Or(x + c.q(1, 1024) <= old, x >= old + c.q(1, 1024)))
    c.feasible()
    differ(c, what, one, surface(c, Q, pu, pv, k2u, k2v))


def cases(tier):
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3):
        for n in (p + 1, p + 2) + (() if tier == "quick" else (p + 3,)):
            for mult in mults(n, p):
                for w in (None, "pos"):
                    add("equal", equal, p, mult, w)
                    for what in ("point", "weight", "knot"):
                        add("unequal", unequal, p, mult, w, what)
    for op in ("insert", "points", "weights", "knots"):
        add("edited", edited, op)
    for k in ("curve", "surface"):
        add("others", others, k)
    for what in ("same", "point", "knots_u", "knots_v"):
        add("surface", surf, 1, 1, 2, 2, what)
        add("surface", surf, 2, 1, 4, 2, what)
    return out
