from common import *

BOUNDS = ("degree 1-4, up to degree+4 basis functions (thorough: +6); every non-decreasing clamped knot vector (all multiplicity patterns) with symbolic values "
          "in [-8,8] and every real parameter in [-40,40], inside or outside the domain; unclamped knot vectors of degree 1-3; periodic wrapping over up "
          "to four periods; at most 3000 loop iterations per path (more is reported as non-termination)")
OUTSIDE = "larger tables, NaN and infinite parameters, knots closer than 1/64 for the multiplicity count"


def increasing(c, name, k, gap=True):
    b = [c.real(f"{name}{i}", -8, 8) for i in range(k)]
    for x, y in zip(b, b[1:]):
        c.assume(x < y)
        if gap:
            c.assume(x + c.q(*SEP) <= y)
    return b


def spans(c, U, u, n, p, label, wrap=None):
    m = c.mod(NURBS)
    s = m.find_span(n - 1, p, u, c.array(U), wrap is not None)
    if not c.isint(s):
        s = int(s)
    if not p <= s <= n - 1:
        c.fail(label + " in range", f"{s}")
    return s


def span_clamped(c, p, mult, where):
    n = p + 1 + sum(mult)
    b = increasing(c, "k", len(mult) + 2, gap=False)
    kn = [b[0]] * (p + 1)
    for m, x in zip(mult, b[1:-1]):
        kn += [x] * m
    kn += [b[-1]] * (p + 1)
    u = c.real("u", -40, 40)
    if where == "in":
        c.assume(u >= b[0])
        c.assume(u <= b[-1])
    elif where == "below":
        c.assume(u < b[0])
    else:
        c.assume(u > b[-1])
    c.feasible()
    s = spans(c, kn, u, n, p, "span")
    c.check("non-empty span", kn[s] < kn[s + 1], f"{s}")
    if where == "in":
        c.check("holds the parameter", c.Or(c.And(kn[s] <= u, u < kn[s + 1]), c.And(u == b[-1], kn[s + 1] == b[-1])), f"{s}")
    else:
        c.check("nearest end", s == p if where == "below" else s == n - 1, f"{s}")


def span_unclamped(c, p, n):
    """strictly increasing knots: the curve's own domain as reported by the object, every parameter"""
    kn = increasing(c, "k", n + p + 1, gap=False)
    u = c.real("u", -40, 40)
    s = spans(c, kn, u, n, p, "span")
    c.check("holds the parameter", c.Implies(c.And(kn[p] <= u, u < kn[n]), c.And(kn[s] <= u, u < kn[s + 1])), f"{s}")
    c.check("below", c.Implies(u < kn[p], s == p), f"{s}")
    c.check("above", c.Implies(u >= kn[n], s == n - 1), f"{s}")


def span_periodic(c, p, n):
    """parameters are wrapped into the domain, whatever their size"""
    kn = increasing(c, "k", n + p + 1)
    u0 = c.real("u", -8, 8)
    c.assume(kn[p] <= u0)
    c.assume(u0 < kn[n])
    k = c.pick("turn", 5) - 2
    u = u0 + k * (kn[n] - kn[p])
    s = spans(c, kn, u, n, p, "span", True)
    c.check("wrapped", c.Or(c.And(kn[s] <= u0, u0 < kn[s + 1]), c.And(u0 == kn[p], s == n - 1)), f"{s}")


def unclamped_eval(c, p, n):
    """evaluating an unclamped curve terminates, reads nothing outside its arrays and, in the proper domain, gives the spline"""
    kn = increasing(c, "k", n + p + 1)
    P = ctrl_sparse(c, "P", n, 3)
    u = c.real("u", -8, 8)
    inside = c.pick("inside", 2)
    if inside:
        c.assume(u >= kn[p])
        c.assume(u <= kn[n])
    else:
        c.assume(u >= kn[0])
        c.assume(u < kn[p])
    c.feasible()
    crv = curve(c, P, p, kn)
    got = lst(crv.evaluate(u))[:3]
    if inside:
        c.eqv("point", got, ref_curve(kn, p, P, u))
    else:
        c.observe("value", got[0])


def multiplicity(c, p, mult, at):
    """the number of times a value occurs decides every later insertion: multiply_knot reports degree - multiplicity and ends at full multiplicity"""
    n = p + 1 + sum(mult)
    b = increasing(c, "k", len(mult) + 2)
    kn = [b[0]] * (p + 1)
    for m, x in zip(mult, b[1:-1]):
        kn += [x] * m
    kn += [b[-1]] * (p + 1)
    for x in b:
        c.assume(c.Or(x == 0, x >= c.q(1, 64), x <= -c.q(1, 64)))
    P = ctrl_sparse(c, "P", n, 3)
    t = on_domain(c, "t", b, at)
    c.assume(c.Or(t == 0, t >= c.q(1, 64), t <= -c.q(1, 64)))
    c.feasible()
    crv = curve(c, P, p, kn)
    m0 = mult[at[1] - 1] if at[0] == "at" else 0
    r = crv.multiply_knot(t)
    c.check("insertions", r == p - m0, f"{r}")
    k2 = lst(crv.knots)
    if len(k2) != len(kn) + p - m0:
        c.fail("knot count", f"{len(k2)}")
    c.check("multiplicity", sum(1 for x in k2 if eq_(x, t)) == p)
    c.check("idle afterwards", crv.multiply_knot(t) <= 0)
    if len(lst(crv.knots)) != len(k2):
        c.fail("idle afterwards")


def sorting(c, n):
    m = c.mod("mmcore.numeric.algorithms.quicksort")
    a = c.reals("a", n, -8, 8)
    arr = c.array(a)
    m.quicksort(arr)
    out = lst(arr)
    for x, y in zip(out, out[1:]):
        c.le("sorted", x, y)
    for x in a:
        c.check("kept", c.Or(*[x == y for y in out]))
    c.eq("sum", sum_(out), sum_(a))
    c.eq("squares", sum_(x * x for x in out), sum_(x * x for x in a))
    idx = [int(i) for i in lst(m.argsort(c.array(a)))]
    if sorted(idx) != list(range(n)):
        c.fail("permutation", f"{idx}")
    for i, j in zip(idx, idx[1:]):
        c.le("argsort", a[i], a[j])


def cases(tier):
    q = tier == "quick"
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(NURBS,), **k))
    for p in (1, 2, 3, 4):
        for n in range(p + 1, p + (5 if p < 4 else 4) if q else p + 7):
            for mult in mults(n, p):
                for where in ("in", "below", "above"):
                    add("span", span_clamped, p, mult, where)
    for p in (1, 2, 3):
        for n in (p + 1, p + 2, p + 4):
            add("unclamped", span_unclamped, p, n)
            add("periodic", span_periodic, p, n)
        for n in (p + 1, p + 2):
            add("unclamped evaluation", unclamped_eval, p, n)
    for p in (1, 2, 3):
        for mult in ((), (1,), (p,), (1, p)):
            if (p, mult) == (1, (1,)) and mult == (p,):
                continue
            for at in [("in", i) for i in range(len(mult) + 1)] + [("at", i + 1) for i in range(len(mult))]:
                if not any(x.name == "multiplicity " + name_of(p, mult, at) for x in out):
                    add("multiplicity", multiplicity, p, mult, at)
    return out
