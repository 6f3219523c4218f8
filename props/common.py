"""Shared pieces of the harnesses: symbolic inputs (knot vectors, control nets) and reference mathematics.

Everything here works on symbolic reals and on floats alike."""
from h import Case, Skip  # noqa

NURBS = "mmcore.geom.nurbs"
SEP = (1, 64)   # distinct knots / parameters are at least this far apart (stated in every evidence file)


def mults(n, p):
    """multiplicity patterns of the interior knots of a clamped curve with n control points of degree p"""
    def parts(k):
        if k == 0:
            yield ()
        for a in range(1, min(k, p) + 1):
            for r in parts(k - a):
                yield (a,) + r
    return list(parts(n - p - 1))


def breakpoints(c, name, k, lo=None, hi=8):
    """k increasing reals at least SEP apart"""
    lo = c.q(1, 2) if lo is None else lo
    b = [c.real(f"{name}{i}", lo, hi) for i in range(k)]
    order(c, b)
    return b


def order(c, b):
    for i in range(len(b) - 1):
        sep(c, b[i], b[i + 1])
    for i in range(len(b)):
        for j in range(i + 2, len(b)):
            c.assume(b[i] < b[j])


def sep(c, a, b):
    """a < b with room"""
    c.assume(a < b)
    c.assume(a + c.q(*SEP) <= b)


def clamped(c, name, p, mult, unit=False, lo=None):
    """(breakpoints, knot list) with symbolic values; unit: the domain is [0, 1]"""
    k = len(mult) + 2
    if unit:
        inner = [c.real(f"{name}{i + 1}", 0, 1) for i in range(k - 2)]
        b = [c.num(0)] + inner + [c.num(1)]
        order(c, b)
    else:
        b = breakpoints(c, name, k, lo)
    kn = [b[0]] * (p + 1)
    for m, x in zip(mult, b[1:-1]):
        kn += [x] * m
    kn += [b[-1]] * (p + 1)
    return b, kn


def ctrl(c, name, n, d=3, w=None, lo=-8, hi=8):
    """n control points; w: None (no weight column), 'one', 'pos' (symbolic positive weights)"""
    out = []
    for i in range(n):
        r = [c.real(f"{name}{i}_{j}", lo, hi) for j in range(d)]
        if w == "one":
            r.append(c.num(1))
        elif w == "pos":
            r.append(c.real(f"{name}{i}_w", c.q(1, 4), 4))
        out.append(r)
    return out


def ctrl_sparse(c, name, n, d=3, w=None, lo=-8, hi=8):
    """one symbolic coordinate per point, the others fixed integers: geometry is linear in each coordinate"""
    out = []
    for i in range(n):
        r = [c.real(f"{name}{i}", lo, hi)] + [c.num(((i + 1) * (j + 2)) % 7 - 3) for j in range(1, d)]
        if w == "one":
            r.append(c.num(1))
        elif w == "pos":
            r.append(c.real(f"{name}{i}_w", c.q(1, 4), 4))
        out.append(r)
    return out


def eq_(a, b):
    return a is b or bool(a == b)


def span_of(U, n, p, u):
    """the knot interval [U[i], U[i+1]) that holds u, the last non-empty one at the end of the domain; n control points"""
    i = p
    for k in range(p, n):
        if not eq_(U[k], U[k + 1]) and bool(U[k] <= u):
            i = k
    return i


def cox_de_boor(U, i, k, u, span):
    """N_{i,k}(u), 0/0 = 0, straight from the definition"""
    if k == 0:
        return 1 if i == span else 0
    r = 0
    if not eq_(U[i + k], U[i]):
        t = cox_de_boor(U, i, k - 1, u, span)
        if not (isinstance(t, int) and t == 0):
            r = r + (u - U[i]) / (U[i + k] - U[i]) * t
    if not eq_(U[i + k + 1], U[i + 1]):
        t = cox_de_boor(U, i + 1, k - 1, u, span)
        if not (isinstance(t, int) and t == 0):
            r = r + (U[i + k + 1] - u) / (U[i + k + 1] - U[i + 1]) * t
    return r


def basis(U, n, p, u):
    s = span_of(U, n, p, u)
    return s, {i: cox_de_boor(U, i, p, u, s) for i in range(s - p, s + 1)}


def dbasis(U, i, p, u, span, d):
    """d-th derivative of N_{i,p} by the derivative formula"""
    if d == 0:
        return cox_de_boor(U, i, p, u, span)
    r = 0
    if not eq_(U[i + p], U[i]):
        r = r + p * dbasis(U, i, p - 1, u, span, d - 1) / (U[i + p] - U[i]) if p else 0
    if not eq_(U[i + p + 1], U[i + 1]):
        r = r - p * dbasis(U, i + 1, p - 1, u, span, d - 1) / (U[i + p + 1] - U[i + 1])
    return r


def weight_positive(c, U, n, p, u, ws, label="denominator"):
    """sum N_i w_i > 0 from: every factor of every N_i is non-negative, the N_i sum to one, every w_i > 0"""
    s, N = basis(U, n, p, u)
    c.check(label + " span", c.And(U[s] <= u, u <= U[s + 1]))
    c.eq(label + " sum", sum_(N[i] for i in N), 1)
    w = sum_(N[i] * ws[i] for i in N)
    c.assume(w > 0)
    return w


def weight_positive2(c, U, V, nu, nv, pu, pv, u, v, ws, label="denominator"):
    s, N = basis(U, nu, pu, u)
    t, M = basis(V, nv, pv, v)
    c.check(label + " span", c.And(U[s] <= u, u <= U[s + 1], V[t] <= v, v <= V[t + 1]))
    c.eq(label + " sum u", sum_(N[i] for i in N), 1)
    c.eq(label + " sum v", sum_(M[i] for i in M), 1)
    w = sum_(N[i] * M[k] * ws[i][k] for i in N for k in M)
    c.assume(w > 0)
    return w


def ref_curve(U, p, P, u, weights=None, dim=3):
    """curve point; P rows are Euclidean, weights optional"""
    s, N = basis(U, len(P), p, u)
    if weights is None:
        return [sum_(N[i] * P[i][j] for i in N) for j in range(dim)]
    w = sum_(N[i] * weights[i] for i in N)
    return [sum_(N[i] * weights[i] * P[i][j] for i in N) / w for j in range(dim)]


def ref_curve_d(U, p, P, u, d, dim=3):
    s = span_of(U, len(P), p, u)
    N = {i: dbasis(U, i, p, u, s, d) for i in range(s - p, s + 1)}
    return [sum_(N[i] * P[i][j] for i in N) for j in range(dim)]


def ref_surface(U, V, pu, pv, P, u, v, weights=None, dim=3):
    su, Nu = basis(U, len(P), pu, u)
    sv, Nv = basis(V, len(P[0]), pv, v)
    if weights is None:
        return [sum_(Nu[i] * Nv[k] * P[i][k][j] for i in Nu for k in Nv) for j in range(dim)]
    w = sum_(Nu[i] * Nv[k] * weights[i][k] for i in Nu for k in Nv)
    return [sum_(Nu[i] * Nv[k] * weights[i][k] * P[i][k][j] for i in Nu for k in Nv) / w for j in range(dim)]


def ref_surface_h(U, V, pu, pv, Pw, u, v):
    """homogeneous control points (w*x, w*y, w*z, w)"""
    h = ref_surface(U, V, pu, pv, Pw, u, v, None, 4)
    return [h[j] / h[3] for j in range(3)]


def ref_surface_d(U, V, pu, pv, P, u, v, du, dv, dim=3):
    su, sv = span_of(U, len(P), pu, u), span_of(V, len(P[0]), pv, v)
    Nu = {i: dbasis(U, i, pu, u, su, du) for i in range(su - pu, su + 1)}
    Nv = {i: dbasis(V, i, pv, v, sv, dv) for i in range(sv - pv, sv + 1)}
    return [sum_(Nu[i] * Nv[k] * P[i][k][j] for i in Nu for k in Nv) for j in range(dim)]


def sum_(it):
    r = 0
    for x in it:
        r = r + x
    return r


def lst(a):
    """nested list of an array / memoryview, whatever the world"""
    if hasattr(a, "tolist"):
        return a.tolist()
    if isinstance(a, (list, tuple)):
        return [lst(x) for x in a]
    if hasattr(a, "__len__") and not isinstance(a, (str, bytes)):
        return [lst(a[i]) for i in range(len(a))]
    return a


def on_domain(c, name, b, kind="any"):
    """a parameter relative to the increasing breakpoints b: ('in', i) inside the i-th interval, ('at', i) on the i-th breakpoint, 'any' of
    these (split by the solver)"""
    if kind == "any":
        k = c.pick("where_" + name, 2 * len(b) - 1)
        kind = ("at", k // 2) if k % 2 == 0 else ("in", k // 2)
    k, i = kind
    if k == "at":
        return b[i]
    t = c.real(name)
    sep(c, b[i], t)
    sep(c, t, b[i + 1])
    for j in range(i):
        c.assume(b[j] < t)
    for j in range(i + 2, len(b)):
        c.assume(t < b[j])
    return t


def with_t(b, pos, t):
    """b with t put in its place"""
    return b[:pos[1] + 1] + [t] + b[pos[1] + 1:] if pos[0] == "in" else b


def params_of(nb):
    """every position a parameter can have relative to nb breakpoints"""
    return [("at", i) for i in range(nb)] + [("in", i) for i in range(nb - 1)]


def tag(pos):
    return pos if isinstance(pos, str) else f"{pos[0]}{pos[1]}"


def curve(c, P, p, kn, periodic=0):
    m = c.mod(NURBS)
    return m.NURBSCurve(c.array(P), p, c.array(kn), periodic)


def surface(c, P, pu, pv, ku, kv):
    m = c.mod(NURBS)
    return m.NURBSSurface(c.array(P), (pu, pv), c.array(ku), c.array(kv))


def rational(P):
    """Euclidean control points with weights -> homogeneous"""
    return [[r[0] * r[3], r[1] * r[3], r[2] * r[3], r[3]] for r in P]


def curve_at(kn, p, P, u):
    """the rational curve the 4-column control points of a curve object stand for (Euclidean points, weights)"""
    if len(P[0]) < 4 or all(isinstance(r[3], (int, float)) and r[3] == 1 or eq_const(r[3], 1) for r in P):
        return ref_curve(kn, p, P, u)
    return ref_curve(kn, p, P, u, [r[3] for r in P])


def eq_const(x, v):
    q = getattr(x, "q", None)
    return q is not None and q == v


def same_knots(c, label, got, want):
    got = lst(got)
    if len(got) != len(want):
        c.fail(label + " count", f"{len(got)} instead of {len(want)}")
    c.eqv(label, got, want)


def merged(kn, t, count, pos, p, mult):
    """knot list after inserting t (at a breakpoint or inside an interval) count times"""
    out = list(kn)
    k, i = pos
    # index after the last knot <= t
    cnt = [p + 1] + list(mult) + [p + 1]
    at = sum(cnt[:i + 1])
    return out[:at] + [t] * count + out[at:]


def name_of(*a):
    def one(x):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            return tag(x)
        if isinstance(x, tuple):
            return "m" + ("".join(map(str, x)) or "-")
        return str(x)
    return " ".join(one(x) for x in a)
