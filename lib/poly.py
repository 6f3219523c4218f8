"""Sparse multivariate polynomials over Q with packed exponents, and rational functions with factored denominators.

Used only to put terms in a normal form before they are handed to the solver: a comparison `a < b` becomes the
polynomial constraint `num(a-b) * sign(den) < 0`, which is what the solver decides.
A monomial is an integer holding 8 bits of exponent per variable; multiplication of monomials is integer addition."""
from fractions import Fraction

BITS = 8
LIMIT = 60000


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    @staticmethod
    def const(q):
        return Poly({0: q} if q else {})

    @staticmethod
    def var(i):
        return Poly({1 << (BITS * i): 1})

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and 0 in d)

    def const_val(self):
        return self.d.get(0, 0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self.d == o.d

    def add(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        r = dict(self.d)
        for m, c in o.d.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def scale(self, q):
        if not q:
            return Poly({})
        if q == 1:
            return self
        return Poly({m: c * q for m, c in self.d.items()})

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        a, b = self.d, o.d
        if len(a) == 1 and 0 in a:
            return o.scale(a[0])
        if len(b) == 1 and 0 in b:
            return self.scale(b[0])
        if len(a) * len(b) > 40 * LIMIT:
            raise TooBig
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        if len(r) > LIMIT:
            raise TooBig
        return Poly(r)

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r.mul(self)
        return r

    def lead(self):
        return max(self.d)

    def divexact(self, o):
        """Exact quotient or None (lexicographic division)."""
        if o.is_const():
            return self.scale(Fraction(1) / o.const_val())
        lm = o.lead()
        lc = o.d[lm]
        rem = dict(self.d)
        q = {}
        ovars = unpack(lm)
        steps = 0
        while rem:
            steps += 1
            if steps > 4000:
                return None
            m = max(rem)
            # divisible?
            um = m
            ok = True
            for i, e in ovars:
                if ((um >> (BITS * i)) & 0xFF) < e:
                    ok = False
                    break
            if not ok:
                return None
            mq = m - lm
            cq = Fraction(rem[m]) / lc
            q[mq] = cq
            for mo, co in o.d.items():
                k = mo + mq
                s = rem.get(k, 0) - co * cq
                if s:
                    rem[k] = s
                else:
                    rem.pop(k, None)
        return Poly(q)

    def vars(self):
        s = 0
        for m in self.d:
            s |= m
        out = []
        i = 0
        while s:
            if s & 0xFF:
                out.append(i)
            s >>= BITS
            i += 1
        return out

    def degree(self):
        best = 0
        for m in self.d:
            t = 0
            while m:
                t += m & 0xFF
                m >>= BITS
            best = max(best, t)
        return best

    def primitive(self):
        """(c, p) with self = c*p, p having leading coefficient 1."""
        if not self.d:
            return 0, self
        c = self.d[self.lead()]
        if c == 1:
            return 1, self
        inv = Fraction(1) / c
        return c, Poly({m: norm(k * inv) for m, k in self.d.items()})

    def by_var(self, i):
        """coefficients by power of variable i"""
        out = {}
        sh = BITS * i
        for m, c in self.d.items():
            e = (m >> sh) & 0xFF
            out.setdefault(e, {})[m - (e << sh)] = c
        return {e: Poly(d) for e, d in out.items()}


def norm(q):
    if isinstance(q, Fraction) and q.denominator == 1:
        return q.numerator
    return q


def unpack(m):
    out = []
    i = 0
    while m:
        e = m & 0xFF
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


ONE = Poly.const(1)
ZERO = Poly({})


class Rat:
    """num / prod(f**e); the factors f are monic (leading coefficient 1) and non constant."""
    __slots__ = ("n", "f")

    def __init__(self, n, f=None):
        self.n = n
        self.f = f or {}

    @staticmethod
    def const(q):
        return Rat(Poly.const(q))

    def add(self, o):
        if not self.f and not o.f:
            return Rat(self.n.add(o.n))
        if self.f == o.f:
            return Rat(self.n.add(o.n), self.f).reduce()
        l = dict(self.f)
        for p, e in o.f.items():
            if l.get(p, 0) < e:
                l[p] = e
        a, b = self.n, o.n
        for p, e in l.items():
            ea = e - self.f.get(p, 0)
            eb = e - o.f.get(p, 0)
            if ea:
                a = a.mul(p.pow(ea))
            if eb:
                b = b.mul(p.pow(eb))
        return Rat(a.add(b), l).reduce()

    def neg(self):
        return Rat(self.n.neg(), self.f)

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        if not self.f and not o.f:
            return Rat(self.n.mul(o.n))
        # cancel numerators that are themselves denominators
        f = dict(self.f)
        for p, e in o.f.items():
            f[p] = f.get(p, 0) + e
        a, b = self.n, o.n
        a, f = _cancel(a, f)
        b, f = _cancel(b, f)
        return Rat(a.mul(b), f)

    def inv(self):
        n = ONE
        for p, e in self.f.items():
            n = n.mul(p.pow(e))
        c, p = self.n.primitive()
        if p.is_const():
            return Rat(n.scale(norm(Fraction(1) / c)))
        n = n.scale(norm(Fraction(1) / c))
        return Rat(n, {p: 1}).reduce()

    def reduce(self):
        if not self.n.d:
            return Rat(self.n)
        n, f = _cancel(self.n, self.f)
        return Rat(n, f)

    def is_const(self):
        return self.n.is_const() and not self.f

    def den(self):
        n = ONE
        for p, e in self.f.items():
            n = n.mul(p.pow(e))
        return n


def _cancel(n, f):
    if not f or not n.d:
        return n, (f if n.d else {})
    out = {}
    for p, e in f.items():
        while e:
            if len(n.d) < len(p.d) and not n.is_const() and len(n.d) == 1:
                break
            if n.is_const():
                break
            q = n.divexact(p)
            if q is None:
                break
            n = Poly({m: norm(c) for m, c in q.d.items()})
            e -= 1
        if e:
            out[p] = e
    return n, out
