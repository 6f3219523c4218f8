from common import *

BOUNDS = "arrays of up to 5 (thorough: 6) symbolic numbers with any coincidences; the C sources are translated from clang's syntax tree on every run"
OUTSIDE = ("NaN and infinities; qsort itself is taken as any algorithm that leaves the elements in an order its comparison accepts; mmcore.numeric.matrix, whose built extension "
           "is hidden by the package directory of the same name and cannot be imported")

QS = "mmcore.numeric.algorithms.quicksort"


def values(c, n, layout="plain"):
    xs = [c.real(f"x{i}", -8, 8) for i in range(n)]
    c.feasible()
    if layout == "strided":
        a = c.array([y for x in xs for y in (x, c.num(99))])
        return xs, a, a[::2]
    a = c.array(xs)
    return xs, a, a


def is_sorted_perm(c, label, got, xs):
    c.check(label + " length", len(got) == len(xs))
    for i in range(len(got) - 1):
        c.check(label + " order", got[i] <= got[i + 1])
    # a permutation: every value occurs as often as before
    for x in xs:
        c.check(label + " elements", sum(1 for y in xs if bool(y == x)) == sum(1 for y in got if bool(y == x)))


def sorting(c, n):
    m = c.mod(QS)
    xs, base, a = values(c, n)
    m.quicksort(a)
    is_sorted_perm(c, "sorted", lst(a), xs)


def arg(c, n):
    m = c.mod(QS)
    xs, base, a = values(c, n)
    idx = [int(i) for i in lst(m.argsort(a))]
    c.check("indices", sorted(idx) == list(range(n)), str(idx))
    for i in range(n - 1):
        c.check("order", xs[idx[i]] <= xs[idx[i + 1]])
    c.eqv("argument", lst(a), xs)


def uniq(c, n, given):
    m = c.mod(QS)
    xs, base, a = values(c, n)
    if given:
        r = c.array([c.num(0)] * (n + 2))
        got = lst(m.unique(a, r))
        c.eqv("written", lst(r)[:len(got)], got)
    else:
        got = lst(m.unique(a))
    for i in range(len(got) - 1):
        c.check("increasing", got[i] < got[i + 1])
    for x in xs:
        c.check("complete", c.Or(*[x == y for y in got]))
    for y in got:
        c.check("from the array", c.Or(*[x == y for x in xs]))
    c.eqv("argument", lst(a), xs)


def cases(tier):
    big = tier == "thorough"
    out = []

    def A(label, fn, *a, mods=(QS,), **k):
        out.append(Case(label + " " + name_of(*a), fn, a, mods=mods, **k))
    for n in range(1, 6 + big):
        A("quicksort", sorting, n, weight=n, paths=20000)
        A("argsort", arg, n, weight=n, paths=20000)
        for given in (False, True):
            A("unique", uniq, n, given, weight=n, paths=20000)
    return out
