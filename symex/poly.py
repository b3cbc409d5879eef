"""Polynomial normal form of real expressions.

Used in front of the solver for "x is close to y": when both sides are the same rational function of the
inputs and of the values of called functions (up to coefficient noise below the tolerance) no query is needed.
A value is a pair (numerator, denominator) of polynomials {monomial: coefficient}; a monomial is a sorted tuple
of (atom id, exponent), exponents may be negative.  Everything except + - * / by a polynomial, negation is an atom.
"""
from fractions import Fraction
from .expr import E
from .backend import rat

LIMIT = 3000
ROUND = Fraction(1, 10 ** 12)
ONE = {(): Fraction(1)}


class TooBig(Exception):
    pass


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        k = d.get(a, 0) + e
        if k:
            d[a] = k
        else:
            del d[a]
    return tuple(sorted(d.items()))


def minv(m):
    return tuple((a, -e) for a, e in m)


def mul(a, b):
    if len(a) * len(b) > 20 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def univariate(p):
    """(atom or None, coefficients from the constant upwards) of a polynomial in one atom, else None"""
    at, co = None, {}
    for m, c in p.items():
        if len(m) > 1 or m and (m[0][1] < 0 or at is not None and m[0][0] != at):
            return None
        if m:
            at = m[0][0]
        co[m[0][1] if m else 0] = c
    if not co or max(co) > 8:
        return None
    return at, [co.get(i, Fraction(0)) for i in range(max(co) + 1)]


def square_root(p):
    """q with q*q == p up to rounding of the coefficients, or None"""
    n = len(p) - 1
    if n % 2 or p[-1] <= 0:
        return None
    h = n // 2
    q = [0.0] * (h + 1)
    f = [float(c) for c in p]
    q[h] = f[n] ** 0.5
    for i in range(h - 1, -1, -1):
        s = sum(q[j] * q[h + i - j] for j in range(i + 1, h))
        q[i] = (f[h + i] - s) / (2 * q[h])
    for k in range(n + 1):
        s = sum(q[j] * q[k - j] for j in range(max(0, k - h), min(k, h) + 1))
        if abs(s - f[k]) > 1e-12 * max(abs(f[k]), abs(s)):
            return None
    return q


class Normal:
    """inverse: 1/polynomial becomes an atom of its own instead of a common denominator"""

    def __init__(self, inverse=False):
        self.cache = {}
        self.atoms = {}
        self.inverse = inverse
        self.inv = {}           # monomials of a polynomial -> [(coefficients, atom id)]
        self.polys = {}         # atom id -> polynomial

    def atom(self, e):
        self.atoms[e.id] = e
        return ({((e.id, 1),): Fraction(1)}, ONE)

    def norm(self, root):
        if not isinstance(root, E):
            v = rat(root)
            return ({(): v} if v else {}, ONE)
        stack = [root]
        while stack:
            e = stack[-1]
            if e.id in self.cache:
                stack.pop()
                continue
            if e.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                todo = [x for x in e.a if isinstance(x, E) and x.id not in self.cache]
                if todo:
                    stack.extend(todo)
                    continue
                r = self.node(e, [self.cache[x.id] if isinstance(x, E) else self.norm(x) for x in e.a])
            else:
                r = self.atom(e)
            self.cache[e.id] = r
            stack.pop()
        return self.cache[root.id]

    def node(self, e, v):
        try:
            return self.roots(self.node0(e, v), e)
        except TooBig:
            return self.atom(e)

    def node0(self, e, v):
        if e.op == 'fneg':
            return ({m: -c for m, c in v[0][0].items()}, v[0][1])
        (a, p), (b, q) = v
        if e.op in ('fadd', 'fsub'):
            k = 1 if e.op == 'fadd' else -1
            if p is q or p == q:
                return (add(a, b, k), p)
            return (add(mul(a, q), mul(b, p), k), mul(p, q))
        if e.op == 'fmul':
            return (mul(a, b), mul(p, q))
        if not b:
            return self.atom(e)
        return self.divide(mul(a, q), mul(p, b))

    def divide(self, num, den):
        if len(den) == 1:
            (m, c), = den.items()
            m = minv(m)
            return ({mmul(n, m): x / c for n, x in num.items()}, ONE)
        if self.inverse and len(den) > 1:
            m, c, p = self.primitive(den)
            m = mmul(minv(m), ((self.inverse_atom(p), 1),))
            return ({mmul(n, m): x / c for n, x in num.items()}, ONE)
        return (num, den)

    def primitive(self, p):
        """p = monomial * coefficient * polynomial with leading coefficient 1"""
        g = None
        for m in p:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = {a: min(g.get(a, 0), d.get(a, 0)) for a in set(g) | set(d)}
        g = tuple(sorted((a, k) for a, k in g.items() if k))
        i = minv(g)
        q = {mmul(m, i): c for m, c in p.items()}
        c = q[max(q)]
        return g, c, {m: x / c for m, x in q.items()}

    def inverse_atom(self, p):
        ms = tuple(sorted(p))
        cs = [p[m] for m in ms]
        for old, i in self.inv.setdefault(ms, []):
            if all(abs(a - b) <= ROUND * abs(b) for a, b in zip(cs, old)):
                return i
        i = -1 - len(self.polys)
        self.polys[i] = p
        self.inv[ms].append((cs, i))
        return i

    def root(self, a):
        """normal form of the radicand if a is a square root"""
        if a < 0:
            return None
        e = self.atoms[a]
        if e.op == 'call' and e.x == 'sqrt':
            return self.norm(e.a[0])
        return None

    def roots(self, r, e):
        """squares of square roots are replaced by the radicand"""
        for _ in range(8):
            hit = None
            for p in r:
                for m in p:
                    for a, k in m:
                        if (k > 1 or k < -1) and self.root(a) is not None:
                            hit = a
            if hit is None:
                return r
            x = self.root(hit)
            out = []
            for p in r:
                # root**2j = (X0/X1)**j, brought to a common denominator
                js = {}
                for m in p:
                    k = dict(m).get(hit, 0)
                    js[m] = int(k / 2) if abs(k) > 1 else 0
                lo, hi = min([0] + list(js.values())), max([0] + list(js.values()))
                n, d = {}, ONE
                for m, c in p.items():
                    k = js[m]
                    t = {mmul(m, ((hit, -2 * k),)) if k else m: c}
                    for _ in range(k - lo):
                        t = mul(t, x[0])
                    if x[1] != ONE:
                        for _ in range(hi - k):
                            t = mul(t, x[1])
                    n = add(n, t)
                for _ in range(-lo):
                    d = mul(d, x[0])
                if x[1] != ONE:
                    for _ in range(hi):
                        d = mul(d, x[1])
                out.append((n, d))
            (n1, d1), (n2, d2) = out
            if not n2:
                return r
            if n2 == ONE and d2 is ONE:
                r = self.divide(n1, d1)
            else:
                r = self.divide(mul(n1, d2), mul(d1, n2))
        return r


def mbound(m, bnd):
    """largest |monomial|, None if unbounded"""
    r = Fraction(1)
    for a, e in m:
        b = bnd(a)
        if b is None:
            return None
        lo, hi = b
        if e > 0:
            if lo is None or hi is None:
                return None
            r *= max(abs(lo), abs(hi)) ** e
        elif lo is not None and lo > 0:
            r *= lo ** e
        elif hi is not None and hi < 0:
            r *= (-hi) ** e
        else:
            return None
    return r


def msign(m, bnd):
    """+1/-1 if the monomial has this sign (or is zero) everywhere, 0 if not known"""
    s = 1
    for a, e in m:
        if e % 2 == 0:
            continue
        b = bnd(a)
        if b is None:
            return 0
        if b[0] is not None and b[0] >= 0:
            continue
        if b[1] is not None and b[1] <= 0:
            s = -s
        else:
            return 0
    return s


def close(nf, x, y, rt, at, bnd):
    """True if |x-y| <= at + rt*|y| follows from the normal forms (denominators, if any, returned as well)"""
    try:
        (a, p), (b, q) = nf.norm(x), nf.norm(y)
        if p is q or p == q:
            P, Q = a, b
            D = p
        else:
            P, Q = mul(a, q), mul(b, p)
            D = mul(p, q)
        d = add(P, Q, -1)
    except (TooBig, OverflowError, ValueError):
        return False, None
    den = None if D == ONE else D
    if not d:
        return True, den
    at, rt = rat(at), rat(rt)
    # the same expression up to rounding of the constants
    if (at or rt) and all(m in Q and abs(c) <= ROUND * abs(Q[m]) for m, c in d.items()):
        return True, den
    if at and den is None:
        s = Fraction(0)
        for m, c in d.items():
            b = mbound(m, bnd)
            if b is None:
                s = None
                break
            s += abs(c) * b
        if s is not None and s <= at:
            return True, den
    if rt:
        sg = None
        for m, c in Q.items():
            s = msign(m, bnd) if len(Q) > 1 or len(d) > 1 else 1
            s *= 1 if c > 0 else -1
            if s == 0 or (sg is not None and s != sg):
                return False, None
            sg = s
        for m, c in d.items():
            if m not in Q or abs(c) > rt * abs(Q[m]):
                return False, None
        return True, den
    return False, None
