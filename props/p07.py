import itertools

from common import *

BOUNDS = ("curves of degree 2 with 4 control points (interior knot, points and weights symbolic) on the domain [0,2]; every history of up to two (thorough: three) "
          "modifications out of nine kinds, applied to the curve or to a copy of it made by copy(), deepcopy, copy.copy or pickling; both objects are evaluated, at the "
          "same parameter before and after every step; surfaces of degree (1,1) and (2,1) with up to two modifications")
OUTSIDE = "longer histories, other degrees, writing into the arrays returned by the control_points and knots properties"

OPS = ("insert", "normalize", "points", "weights", "knots", "result", "set", "multi", "degree")
PKL = ("copy", "deepcopy", "copy.copy", "pickle")


class Model:
    def __init__(self, kn, P, p=2):
        self.kn, self.P, self.p = list(kn), [list(r) for r in P], p

    def clone(self):
        return Model(self.kn, self.P, self.p)


def dup(c, crv, how):
    import copy
    import pickle
    if how == "copy":
        return crv.copy()
    if how == "deepcopy":
        return crv.__deepcopy__({}) if c.sym else copy.deepcopy(crv)
    if how == "copy.copy":
        if c.sym:
            f, a = crv.__reduce__()[:2]
            return f(*a)
        return copy.copy(crv)
    if c.sym:
        f, a = crv.__reduce__()[:2]
        return f(*[x.copy() if hasattr(x, "copy") else x for x in a])
    return pickle.loads(pickle.dumps(crv))


def apply(c, op, crv, mo, k, u):
    """one modification of the object and of the model"""
    p = mo.p
    if op == "insert":
        end = mo.kn[-1]
        t = c.real(f"t{k}")
        inner = [x for x in mo.kn if not eq_(x, end) and not eq_const(x, 0)]
        c.assume(t >= c.q(1, 64))
        c.assume(t <= end - c.q(1, 64))
        for x in inner:
            # on one side of every knot, the solver picks which
            if t < x:
                c.assume(t + c.q(*SEP) <= x)
            else:
                c.assume(t >= x + c.q(*SEP))
        c.feasible()
        crv.insert_knot(t, 1)
        at = len([x for x in mo.kn if x <= t])
        mo.kn = mo.kn[:at] + [t] + mo.kn[at:]
        mo.P = lst(crv.control_pointsw)      # decided by the knot insertion property; here: no stale value anywhere
    elif op == "normalize":
        L = mo.kn[-1] - mo.kn[0]
        crv.normalize_knots()
        mo.kn = [(x - mo.kn[0]) / L for x in mo.kn]
    elif op == "points":
        n = len(mo.P)
        Q = [[c.real(f"q{k}_{i}", -8, 8), c.num(i), c.num(-i)] for i in range(n)]
        crv.control_points = c.array(Q)
        mo.P = [r + [c.num(1)] for r in Q]
    elif op == "weights":
        n = len(mo.P)
        W = [c.real(f"v{k}_{i}", c.q(1, 4), 4) for i in range(n)]
        crv.weights = c.array(W)
        mo.P = [r[:3] + [w] for r, w in zip(mo.P, W)]
    elif op == "knots":
        end = mo.kn[-1]
        n = len(mo.P)
        inner = [end * (i + 1) / (n - p + 2) for i in range(n - p - 1)]
        kn = [c.num(0)] * (p + 1) + inner + [end] * (p + 1)
        arr = c.array(kn)
        crv.knots = arr
        mo.kn = kn
        arr[p + 1] = arr[p + 1] / 2           # the caller keeps using its own array
    elif op == "result":
        r = crv.evaluate(u)
        r[0] = r[0] + 1
        r[2] = 0
    elif op == "multi":
        r = crv.evaluate_multi(c.array([u, u]))
        r[0][0] = 7
        r[1][2] = 9
    elif op == "set":
        n = len(mo.P)
        Q = [[c.real(f"s{k}_{i}", -8, 8), c.num(i), c.num(2 - i), c.num(1)] for i in range(n)]
        end = mo.kn[-1]
        kn = [c.num(0)] * (p + 1) + [end * (i + 1) / (n - p + 1) for i in range(n - p - 1)] + [end * 2] * (p + 1)
        crv.set(c.array(Q), c.array(kn))
        mo.kn, mo.P = kn, Q
    elif op == "degree":
        n = len(mo.P)
        new = 3 - p
        r = c.call(lambda: setattr(crv, "degree", n))
        c.check("a degree too high for the control points is refused", r[0] == "err")
        crv.degree = new
        mo.p = new
        mo.kn = [c.num(0)] * (new + 1) + [c.num(i + 1) for i in range(n - new - 1)] + [c.num(n - new)] * (new + 1)


def agree(c, label, crv, mo, us):
    it = crv.interval()
    c.eqv(label + " domain", [it[0], it[1]], [mo.kn[0], mo.kn[-1]])
    same_knots(c, label + " knots", crv.knots, mo.kn)
    c.check(label + " degree", int(crv.degree) == mo.p)
    c.eqm(label + " points", lst(crv.control_pointsw), mo.P)
    for j, u in enumerate(us):
        W = [r[3] for r in mo.P]
        if not all(eq_const(w, 1) or (isinstance(w, float) and w == 1) for w in W):
            s, N = basis(mo.kn, len(mo.P), mo.p, u)
            den = sum_(N[i] * W[i] for i in N)
            c.assume(den > 0)
            got = lst(crv.evaluate(u))[:3]
            c.eqv(f"{label} point {j}", [g * den for g in got], [sum_(N[i] * W[i] * mo.P[i][x] for i in N) for x in range(3)])
        else:
            c.eqv(f"{label} point {j}", lst(crv.evaluate(u))[:3], ref_curve(mo.kn, mo.p, mo.P, u))


def start(c):
    x = c.real("x", c.q(1, 4), c.q(7, 4))
    kn = [c.num(0)] * 3 + [x] + [c.num(2)] * 3
    P = [[c.real(f"P{i}", -8, 8), c.num(i), c.num(3 - i), c.num(1)] for i in range(4)]
    u = c.real("u", c.q(1, 64), c.q(63, 64))
    c.assume(c.Or(u + c.q(1, 64) <= x, u >= x + c.q(1, 64)))
    c.feasible()
    m = c.mod(NURBS)
    crv = m.NURBSCurve(c.array([r[:3] for r in P]), 2, c.array(kn))
    return crv, Model(kn, P), [u, c.num(0)]


def history(c, ops):
    crv, mo, us = start(c)
    agree(c, "start", crv, mo, us)
    for k, op in enumerate(ops):
        apply(c, op, crv, mo, k, us[0])
        agree(c, f"after {op}", crv, mo, us)


def fork(c, how, pre, ops, who):
    """a copy and its original lead separate lives"""
    crv, mo, us = start(c)
    agree(c, "start", crv, mo, us)
    for k, op in enumerate(pre):
        apply(c, op, crv, mo, 9 + k, us[0])
    other, mo2 = dup(c, crv, how), mo.clone()
    agree(c, "copy", other, mo2, us)
    for k, op in enumerate(ops):
        a, b = (crv, mo) if who == "original" else (other, mo2)
        apply(c, op, a, b, k, us[0])
        agree(c, f"original after {op}", crv, mo, us)
        agree(c, f"copy after {op}", other, mo2, us)


def shared_arrays(c, op):
    """two curves built from the same arrays"""
    m = c.mod(NURBS)
    x = c.real("x", c.q(1, 4), c.q(7, 4))
    kn = [c.num(0)] * 3 + [x] + [c.num(2)] * 3
    P = [[c.real(f"P{i}", -8, 8), c.num(i), c.num(3 - i), c.num(1)] for i in range(4)]
    u = c.real("u", c.q(1, 64), c.q(63, 64))
    c.assume(c.Or(u + c.q(1, 64) <= x, u >= x + c.q(1, 64)))
    c.feasible()
    A, U = c.array(P), c.array(kn)
    one, two = m.NURBSCurve(A, 2, U), m.NURBSCurve(A, 2, U)
    m1, m2 = Model(kn, P), Model(kn, P)
    agree(c, "first", one, m1, [u])
    apply(c, op, one, m1, 0, u)
    agree(c, "first after", one, m1, [u])
    agree(c, "second after", two, m2, [u])
    c.eqv("caller's knots", lst(U), kn)
    c.eqm("caller's points", lst(A), P)
    U[3] = U[3] / 2
    A[0, 0] = A[0, 0] + 1
    agree(c, "first after the caller's edit", one, m1, [u])


def strided(c, how):
    """arrays of any memory layout are accepted"""
    m = c.mod(NURBS)
    kn, P = [c.num(x) for x in (0, 0, 0, 1, 2, 2, 2)], [[c.real(f"P{i}", -8, 8), c.num(i), c.num(3 - i), c.num(1)] for i in range(4)]
    u = c.real("u", c.q(1, 64), c.q(63, 64))
    if how == "reversed":
        U = c.array(list(reversed(kn)))[::-1]
        A = c.array(list(reversed(P)))[::-1]
    elif how == "step":
        U = c.array([x for k in kn for x in (k, c.num(9))])[::2]
        A = c.array([x for r in P for x in (r, [c.num(9)] * 4)])[::2]
    else:
        U = c.array([[k, c.num(9)] for k in kn])[:, 0]
        A = c.array([[r[j] for r in P] for j in range(4)]).T
    crv = m.NURBSCurve(A, 2, U)
    mo = Model(kn, P)
    agree(c, "curve", crv, mo, [u])
    agree(c, "copy", crv.copy(), mo, [u])
    d = m.NURBSCurve.deserialize(crv.serialize())
    agree(c, "deserialized", d, mo, [u])


SOPS = ("insert_u", "insert_v", "normalize", "knots_u", "degree")


def sapply(c, op, s, st, k):
    ku, kv, pu, pv = st["ku"], st["kv"], st["pu"], st["pv"]
    if op in ("insert_u", "insert_v"):
        a = op[-1]
        kk = ku if a == "u" else kv
        t = c.real(f"t{k}{a}")
        c.assume(t >= c.q(1, 64))
        c.assume(t <= kk[-1] - c.q(1, 64))
        inner = [x for x in kk if not eq_(x, kk[0]) and not eq_(x, kk[-1])]
        for x in inner:
            if t < x:
                c.assume(t + c.q(*SEP) <= x)
            else:
                c.assume(t >= x + c.q(*SEP))
        c.feasible()
        (s.insert_knot_u if a == "u" else s.insert_knot_v)(t, 1)
        at = len([x for x in kk if x <= t])
        st["k" + a] = kk[:at] + [t] + kk[at:]
        st["P"] = lst(s.control_points_w)
    elif op == "normalize":
        s.normalize_knots()
        for a in ("ku", "kv"):
            z = st[a]
            st[a] = [(x - z[0]) / (z[-1] - z[0]) for x in z]
    elif op == "knots_u":
        n = len(st["P"])
        st["ku"] = [c.num(0)] * (pu + 1) + [c.num(i + 1) for i in range(n - pu - 1)] + [c.num(n - pu)] * (pu + 1)
        s.knots_u = c.array(st["ku"])
    elif op == "degree":
        nu, nv = len(st["P"]), len(st["P"][0])
        s.degree = (1, 1)
        st["pu"] = st["pv"] = 1
        for a, n in (("ku", nu), ("kv", nv)):
            st[a] = [c.num(0)] * 2 + [c.num(i + 1) for i in range(n - 2)] + [c.num(n - 1)] * 2


def sagree(c, label, s, st, uv):
    it = s.interval()
    c.eqv(label + " domain", [it[0][0], it[0][1], it[1][0], it[1][1]], [st["ku"][0], st["ku"][-1], st["kv"][0], st["kv"][-1]])
    same_knots(c, label + " knots u", s.knots_u, st["ku"])
    same_knots(c, label + " knots v", s.knots_v, st["kv"])
    c.eqm(label + " points", lst(s.control_points_w), st["P"])
    flat = [r for row in st["P"] for r in row]
    c.eqm(label + " flat points", lst(s.control_points_flat_w), flat)
    for nm, got in (("control_points_flat", lst(s.control_points_flat)), ("control_points", [r for row in lst(s.control_points) for r in row])):
        c.eqm(f"{label} {nm}", [[g * r[3] for g in row] for row, r in zip(got, flat)], [r[:3] for r in flat])
    c.check(label + " shape", tuple(int(x) for x in s.shape) == (len(st["P"]), len(st["P"][0])))
    w = [[[r[3]] for r in row] for row in st["P"]]
    w = ref_surface(st["ku"], st["kv"], st["pu"], st["pv"], w, uv[0], uv[1], dim=1)[0]
    c.eqv(label + " point", [x * w for x in lst(s.evaluate(c.array(uv)))], ref_surface(st["ku"], st["kv"], st["pu"], st["pv"], st["P"], uv[0], uv[1]))


def surf_history(c, pu, pv, nu, nv, ops, who, rat=False):
    ku = [c.num(0)] * (pu + 1) + [c.num(i + 1) for i in range(nu - pu - 1)] + [c.num(nu - pu)] * (pu + 1)
    kv = [c.num(0)] * (pv + 1) + [c.num(i + 1) for i in range(nv - pv - 1)] + [c.num(nv - pv)] * (pv + 1)
    P = [[[c.real(f"P{i}_{j}", -8, 8), c.num(i), c.num(i - j), c.num(1)] for j in range(nv)] for i in range(nu)]
    if rat:
        for i in range(nu):
            for j in range(nv):
                P[i][j][3] = c.q(2 + i + 2 * j, 3)
    u, v = c.real("u", c.q(1, 64), c.q(63, 64)), c.real("v", c.q(1, 64), c.q(63, 64))
    s = surface(c, P, pu, pv, ku, kv)
    st = dict(ku=ku, kv=kv, pu=pu, pv=pv, P=P)
    sagree(c, "start", s, st, [u, v])
    o, st2 = s.copy(), dict(st)
    sagree(c, "copy", o, st2, [u, v])
    for k, op in enumerate(ops):
        a, b = (s, st) if who == "original" else (o, st2)
        for t in ("t0u", "t0v", "t1u", "t1v"):
            pass
        sapply(c, op, a, b, k)
        sagree(c, f"original after {op}", s, st, [u, v])
        sagree(c, f"copy after {op}", o, st2, [u, v])


def held(c, what, then):
    """an array handed out earlier keeps its values when the surface changes or goes away"""
    pu, pv, nu, nv = 1, 2, 2, 3
    ku, kv = [c.num(0)] * 2 + [c.num(1)] * 2, [c.num(0)] * 3 + [c.num(1)] * 3
    P = [[[c.real(f"P{i}_{j}", -8, 8), c.num(i), c.num(i - j), c.num(1)] for j in range(nv)] for i in range(nu)]
    s = surface(c, P, pu, pv, ku, kv)
    a = getattr(s, what)
    before = {"degree": [pu, pv], "knots_u": ku, "knots_v": kv}.get(what)
    if before is None:
        before = [r for row in P for r in row] if "flat" in what else P
        if not what.endswith("_w"):
            before = [r[:3] for r in before] if "flat" in what else [[x[:3] for x in r] for r in before]
    if then == "insert":
        s.insert_knot_u(c.q(1, 2), 1)
        s.insert_knot_v(c.q(1, 4), 1)
    elif then == "normalize":
        s.normalize_knots()
    else:
        del s
        import gc
        gc.collect()
    if not c.sym:
        junk = [bytearray(b"\x55" * k) for k in (32, 64, 96, 192, 384) for _ in range(64)]
    if what == "degree":
        c.check("values", [int(x) for x in a] == before)
    elif "knots" in what:
        c.eqv("values", lst(a), before)
    else:
        c.eqm("values", lst(a), before)


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + " ".join("+".join(x) if isinstance(x, tuple) else str(x) for x in a), fn, a, mods=(NURBS,), **k))
    for n in (1, 2) if q else (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            if n == 3 and len(set(ops)) < 3:
                continue
            add("history", history, ops, weight=n)
    for how in PKL:
        for who in ("original", "copy"):
            for op in OPS:
                add("fork", fork, how, (), (op,), who)
            for pre in ("insert", "weights", "normalize", "knots"):
                add("fork", fork, how, (pre,), ("points" if pre != "points" else "weights",), who)
    for op in OPS:
        add("shared", shared_arrays, op)
    for what in ("control_points", "control_points_w", "control_points_flat", "control_points_flat_w", "knots_u", "degree"):
        for then in ("insert", "normalize", "delete"):
            add("held", held, what, then)
    for how in ("reversed", "step", "column"):
        add("layout", strided, how)
    for who in ("original", "copy"):
        for op in SOPS:
            add("surface", surf_history, 1, 1, 2, 3, (op,), who)
            add("surface", surf_history, 2, 1, 3, 2, (op,), who)
            add("surface", surf_history, 1, 1, 3, 2, (op,), who, True)
        for ops in itertools.product(("insert_u", "insert_v", "normalize", "degree"), repeat=2):
            if not q or ops[0] != ops[1]:
                add("surface", surf_history, 2, 1, 4, 2, ops, who, weight=2)
    return out
