from common import *

IV = "mmcore.numeric.interval._interval"
BOUNDS = "intervals and numbers with every bound symbolic in [-8,8], divisors at least 1/64 away from zero unless they contain it, exponents -2 to 4, up to 3 subdivisions"
OUTSIDE = "outward rounding (bounds are computed exactly here, in doubles they may be an ulp off), intervals ending in zero as divisors"


def iv(c, nm, lo=-8, hi=8):
    a, b = c.real(nm + "l", lo, hi), c.real(nm + "u", lo, hi)
    c.assume(a <= b)
    x = c.real(nm + "x", lo, hi)
    c.assume(c.And(a <= x, x <= b))
    return c.mod(IV).Interval(a, b), a, b, x


def holds(c, label, r, x):
    c.check(label + ": lower", r.low <= x)
    c.check(label + ": upper", x <= r.upp)


def inside(c, label, r, pts):
    """no wider than needed: both bounds are taken by the operation at one of the points"""
    c.check(label + ": lower bound is taken", c.Or(*[r.low == p for p in pts]))
    c.check(label + ": upper bound is taken", c.Or(*[r.upp == p for p in pts]))


def away(c, a, b):
    c.assume(c.Or(a >= c.q(1, 64), b <= -c.q(1, 64)))


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def binary(c, op, kind, inplace=False):
    f = OPS[op]
    A, a0, a1, x = iv(c, "a")
    if kind == "interval":
        B, b0, b1, y = iv(c, "b")
        ends = (b0, b1)
    else:
        y = b0 = b1 = B = c.real("s", -8, 8)
        ends = (B,)
    if kind == "reversed":
        if op == "/":
            away(c, a0, a1)
        c.feasible()
        r = f(B, A)
        holds(c, "contains", r, f(y, x))
        inside(c, "tight", r, [f(y, a0), f(y, a1)])
    else:
        if op == "/":
            away(c, b0, b1)
        c.feasible()
        if inplace:
            r = A
            k = (a0, a1)
            if op == "+":
                r += B
            elif op == "-":
                r -= B
            elif op == "*":
                r *= B
            else:
                r /= B
            c.check("same object", r is A)
        else:
            r = f(A, B)
            c.eqv("left operand unchanged", [A.low, A.upp], [a0, a1])
        holds(c, "contains", r, f(x, y))
        inside(c, "tight", r, [f(p, e) for p in (a0, a1) for e in ends])
    if kind == "interval":
        c.eqv("right operand unchanged", [B.low, B.upp], [b0, b1])


def around_zero(c, how):
    A, a0, a1, x = iv(c, "a")
    B, b0, b1, y = iv(c, "b")
    c.assume(c.And(b0 < 0, b1 > 0, c.Or(y <= -c.q(1, 64), y >= c.q(1, 64))))
    c.feasible()
    r = A / B if how == "divide" else ~B
    v = x / y if how == "divide" else 1 / y
    holds(c, "contains", r, v)


def power(c, e, how):
    A, a0, a1, x = iv(c, "a", -4, 4)
    if e < 0:
        away(c, a0, a1)
    c.feasible()
    r = A ** e if how == "op" else c.mod(IV).Interval.pow(A, e)
    v = c.num(1)
    for _ in range(abs(e)):
        v = v * x
    p = [c.num(1), c.num(1)]
    for _ in range(abs(e)):
        p = [p[0] * a0, p[1] * a1]
    if e < 0:
        v, p = 1 / v, [1 / q for q in p]
    holds(c, "contains", r, v)
    inside(c, "tight", r, p + ([c.num(0)] if e > 0 else []))
    if e > 0 and e % 2 == 0:
        c.check("never negative", r.low >= 0)


def compare(c, kind):
    m = c.mod(IV)
    A, a0, a1, x = iv(c, "a")
    if kind == "interval":
        B, b0, b1, y = iv(c, "b")
    else:
        y = b0 = b1 = B = c.real("s", -8, 8)
    c.feasible()
    lt, le, gt, ge = bool(A < B), bool(A <= B), bool(A > B), bool(A >= B)
    certain, never = a1 < b0, a0 > b1
    c.check("less means certainly less", certain if lt else c.Not(certain))
    c.check("greater means certainly greater", never if gt else c.Not(never))
    c.check("le is not greater", le == (not gt))
    c.check("ge is not less", ge == (not lt))
    if lt:
        c.check("every number is less", x < y)
    if gt:
        c.check("every number is greater", x > y)
    r = A.compare(B)
    c.check("three-valued", r == (m.Comparison.TRUE if lt else m.Comparison.FALSE if gt else m.Comparison.MAYBE))


def sets(c, how):
    A, a0, a1, x = iv(c, "a")
    B, b0, b1, y = iv(c, "b")
    z = c.real("z", -9, 9)
    ina, inb = c.And(a0 <= z, z <= a1), c.And(b0 <= z, z <= b1)
    if how == "and":
        c.assume(c.And(a0 <= b1, b0 <= a1))
        c.feasible()
        r = A & B
        both = c.And(ina, inb)
        c.check("intersection", both if bool(c.And(r.low <= z, z <= r.upp)) else c.Not(both))
        return
    c.feasible()
    if how == "contains":
        c.check("number", ina if z in A else c.Not(ina))
        sub = c.And(a0 <= b0, b1 <= a1)
        c.check("interval", sub if B in A else c.Not(sub))
        return
    r = A | B if how == "or" else A.merge(B)
    holds(c, "holds the first", r, x)
    holds(c, "holds the second", r, y)
    inside(c, "hull", r, [a0, a1, b0, b1])


def with_number(c, how):
    """a number as the other set, construction"""
    m = c.mod(IV)
    A, a0, a1, x = iv(c, "a")
    s = c.real("s", -8, 8)
    if how == "and":
        c.assume(c.And(a0 <= s, s <= a1))
        c.feasible()
        r = A & s
        c.eqv("the number", [r.low, r.upp], [s, s])
    elif how == "or":
        c.feasible()
        r = A | s
        holds(c, "holds the interval", r, x)
        holds(c, "holds the number", r, s)
        inside(c, "hull", r, [a0, a1, s])
    else:
        c.feasible()
        for r in (m.Interval((a0, a1)), m.Interval.from_tuple((a0, a1)), m.Interval(*A.to_tuple())):
            c.eqv("from a pair", [r.low, r.upp], [a0, a1])
        r = m.Interval(s)
        c.eqv("from a number", [r.low, r.upp], [s, s])
        c.eqv("array", lst(A.__array__()), [a0, a1])
        k = A.__float__()
        c.eq("centre", 2 * k, a0 + a1)


def parts(c, n):
    A, a0, a1, x = iv(c, "a")
    t = c.real("t", 0, 1)
    c.feasible()
    s = A.subdivide(n)
    c.check("number of parts", len(s) == 2 ** n)
    c.eq("first", s[0].low, a0)
    c.eq("last", s[-1].upp, a1)
    for p, q in zip(s, s[1:]):
        c.eq("adjacent", p.upp, q.low)
    for p in s:
        c.eq("equal parts", (p.upp - p.low) * 2 ** n, a1 - a0)
    c.check("a part holds it", c.Or(*[c.And(p.low <= x, x <= p.upp) for p in s]))
    v = A.evaluate(t)
    holds(c, "evaluate", A, v)
    c.eq("evaluate", v, a0 + t * (a1 - a0))
    c.eqv("ends", [A.lower().low, A.lower().upp, A.upper().low, A.upper().upp], [a0, a0, a1, a1])
    c.eqv("tuple", list(A.to_tuple()), [a0, a1])
    c.eqv("iteration", [p for p in A], [a0, a1])


def chain(c, kind):
    """an expression evaluated on intervals contains its value at every choice of numbers"""
    A, a0, a1, x = iv(c, "a", -4, 4)
    B, b0, b1, y = iv(c, "b", -4, 4)
    k = c.real("k", -4, 4)
    c.feasible()
    f = {"poly": lambda a, b: a * b - k * a + b, "square": lambda a, b: (a - b) ** 2 - k, "mixed": lambda a, b: 2 * a - (k - b) * a, "cube": lambda a, b: (a + k) ** 3 - b}[kind]
    r = f(A, B)
    holds(c, "contains", r, f(x, y))


def cases(tier):
    out = []

    def add(nm, fn, *a, **k):
        out.append(Case(nm + " " + name_of(*a), fn, a, mods=(IV,), **k))
    for op in "+-*/":
        for k in ("interval", "scalar", "reversed"):
            add("operation", binary, op, k)
        add("in place", binary, op, "interval", True)
        add("in place", binary, op, "scalar", True)
    for h in ("divide", "invert"):
        add("around zero", around_zero, h)
    for e in (-2, -1, 0, 1, 2, 3, 4):
        for h in ("op", "pow"):
            add("power", power, e, h)
    for k in ("interval", "scalar"):
        add("compare", compare, k)
    for h in ("and", "or", "merge", "contains"):
        add("sets", sets, h)
    for h in ("and", "or", "made"):
        add("number", with_number, h)
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        add("parts", parts, n)
    for k in ("poly", "square", "mixed", "cube"):
        add("expression", chain, k)
    return out
