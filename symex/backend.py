"""Translation of expression DAGs to SMT (z3).

RealBackend: floating point values are mathematical reals (literals are read as the decimal / small
             fraction they were written as); libm functions are uninterpreted with sound axioms.
FPBackend:   bit-precise IEEE-754 binary64, round-to-nearest-even; libm functions uninterpreted.
"""
import math, time, bisect
from fractions import Fraction
import z3
from mpmath import mp
from .expr import E, walk, sgn, f2bits

mp.dps = 40


def mpfrac(v):
    return Fraction(mp.nstr(v, 34))


LN10 = Fraction(repr(math.log(10)))


def rat(v):
    f = Fraction(v)
    g = f.limit_denominator(1000)
    if float(g) == v:
        return g
    return Fraction(repr(v))


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_time = 0.0
        self.by = {}
        self.refined = 0


class Backend:
    name = '?'
    rounds = 12

    def __init__(self, seed=0, stats=None):
        self.memo = {}
        self.vars = {}      # name -> (z3 var, sort)
        self.seed = seed
        self.stats = stats or Stats()
        self.keep = []
        self.extra_axioms = []   # fn(list of call nodes) -> list of E/z3

    # -- leafs
    def bvval(self, v, w):
        return z3.BitVecVal(v, w)

    def arg(self, v, s):
        if isinstance(v, E):
            return self.memo[v.id]
        if s == 'b':
            return z3.BoolVal(bool(v))
        if s == 'f':
            return self.fconst(v)
        return z3.BitVecVal(v, s)

    def tr(self, e):
        if not isinstance(e, E):
            return z3.BoolVal(bool(e))
        if e.id in self.memo:
            return self.memo[e.id]
        for n in walk([e], ):
            if n.id not in self.memo:
                self.memo[n.id] = self.node(n)
                self.keep.append(n)
        return self.memo[e.id]

    def node(self, n):
        op = n.op
        a = n.a
        s = n.s
        if op == 'var':
            v = z3.Bool(n.x) if s == 'b' else self.fvar(n.x) if s == 'f' else z3.BitVec(n.x, s)
            self.vars[n.x] = (v, s)
            return v
        if op == 'not':
            return z3.Not(self.arg(a[0], 'b'))
        if op == 'and':
            return z3.And(self.arg(a[0], 'b'), self.arg(a[1], 'b'))
        if op == 'or':
            return z3.Or(self.arg(a[0], 'b'), self.arg(a[1], 'b'))
        if op == 'xor':
            return z3.Xor(self.arg(a[0], 'b'), self.arg(a[1], 'b'))
        if op == 'ite':
            return z3.If(self.arg(a[0], 'b'), self.arg(a[1], s), self.arg(a[2], s))
        if op == 'bv':
            x, y = self.arg(a[0], s), self.arg(a[1], s)
            k = n.x
            if k == 'add':
                return x + y
            if k == 'sub':
                return x - y
            if k == 'mul':
                return x * y
            if k == 'and':
                return x & y
            if k == 'or':
                return x | y
            if k == 'xor':
                return x ^ y
            if k == 'shl':
                return x << y
            if k == 'lshr':
                return z3.LShR(x, y)
            if k == 'ashr':
                return x >> y
            if k == 'udiv':
                return z3.UDiv(x, y)
            if k == 'urem':
                return z3.URem(x, y)
            if k == 'sdiv':
                return x / y
            if k == 'srem':
                return z3.SRem(x, y)
            raise Exception(k)
        if op == 'icmp':
            w = a[0].s if isinstance(a[0], E) else a[1].s
            x, y = self.arg(a[0], w), self.arg(a[1], w)
            k = n.x
            if k == 'eq':
                return x == y
            if k == 'slt':
                return x < y
            if k == 'ult':
                return z3.ULT(x, y)
            raise Exception(k)
        if op == 'b2bv':
            return z3.If(self.arg(a[0], 'b'), z3.BitVecVal(1, s), z3.BitVecVal(0, s))
        if op == 'bv2b':
            x = self.arg(a[0], a[0].s)
            return z3.Extract(0, 0, x) == z3.BitVecVal(1, 1)
        if op == 'zext':
            return z3.ZeroExt(s - n.x, self.arg(a[0], n.x))
        if op == 'sext':
            return z3.SignExt(s - n.x, self.arg(a[0], n.x))
        if op == 'extract':
            lo, w = n.x
            return z3.Extract(lo + s - 1, lo, self.arg(a[0], w))
        if op == 'concat':
            return z3.Concat(self.arg(a[0], s - n.x), self.arg(a[1], n.x))
        if op == 'table':
            # constant table read: a = (index,), x = (values tuple, elem sort)
            vals, es = n.x
            idx = self.arg(a[0], 64)
            return self.table(idx, vals, es)
        return self.fnode(n)

    def table(self, idx, vals, es):
        # run-length grouped ite chain
        r = self.arg(vals[-1], es)
        for i in range(len(vals) - 2, -1, -1):
            r = z3.If(z3.ULE(idx, z3.BitVecVal(i, 64)), self.arg(vals[i], es), r)
        return r

    # -- solving
    def axioms(self, roots):
        return []

    def solvers(self, kind, timeout):
        s = z3.Solver()
        yield 'z3', s, timeout

    def refine(self, m, cs):
        return []

    def check(self, cons, timeout=10.0, want_model=True, rounds=None):
        """cons: list of E bools.  returns (status, model dict)"""
        t0 = time.time()
        cs = []
        for c in cons:
            if not isinstance(c, E):
                if not c:
                    return 'unsat', None
                continue
            cs.append(c)
        zs = [self.tr(c) for c in cs]
        zs += self.axioms(cs)
        st, m = 'unknown', None
        for nm, s, to in self.solvers(cs, timeout):
            s.set('timeout', int(to * 1000))
            try:
                s.set('random_seed', self.seed)
            except Exception:
                pass
            s.add(*zs)
            k = rounds if rounds is not None else (self.rounds if want_model else 2)
            tend = time.time() + 2 * to
            while True:
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                st = str(r)
                if st != 'sat' or k <= 0 or time.time() > tend:
                    break
                new = self.refine(s.model(), cs)
                if not new:
                    break
                self.stats.refined += 1
                k -= 1
                zs += new
                s.add(*new)
            if st == 'sat':
                if want_model:
                    m = self.model(s.model(), cs)
                self.stats.by[nm] = self.stats.by.get(nm, 0) + 1
                break
            if st == 'unsat':
                self.stats.by[nm] = self.stats.by.get(nm, 0) + 1
                break
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.max_time = max(self.stats.max_time, dt)
        setattr(self.stats, st, getattr(self.stats, st) + 1)
        return st, m

    def model(self, m, cs):
        out = {}
        for n in walk(cs):
            if n.op == 'var':
                z, s = self.vars[n.x]
                v = m.eval(z, model_completion=True)
                out[n.x] = self.pyval(v, s)
            elif n.op == 'uf':
                out[('uf', n.id)] = self.pyval(m.eval(self.memo[n.id], model_completion=True), 'f')
        return out

    def pyval(self, v, s):
        if s == 'b':
            return 1 if z3.is_true(v) else 0
        if s == 'f':
            return self.fpy(v)
        return v.as_long()


def z3rat(v):
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


class RealBackend(Backend):
    name = 'real'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ufvar = {}
        self.uf_range = {}
        self.int_seen = False
        self.has_inf = False
        self.pivots = []
        self.lemmas = {}      # call node -> (points, constraints)
        self.fun_tol = 1e-10
        self.keep_points = 10

    def fconst(self, v):
        if math.isnan(v) or math.isinf(v):
            # no reals for these: an unconstrained constant (over-approximation), +-inf huge
            if math.isinf(v):
                self.has_inf = True
                r = z3.Real('__inf__')
                return r if v > 0 else -r
            return z3.Real('__nan__')
        f = rat(v)
        return z3.RealVal(f)

    def fvar(self, name):
        return z3.Real(name)

    def fnode(self, n):
        op = n.op
        a = n.a
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.arg(a[0], 'f'), self.arg(a[1], 'f')
            if op == 'fadd':
                return x + y
            if op == 'fsub':
                return x - y
            if op == 'fmul':
                return x * y
            return x / y
        if op == 'fneg':
            return -self.arg(a[0], 'f')
        if op == 'fabs':
            x = self.arg(a[0], 'f')
            return z3.If(x >= 0, x, -x)
        if op == 'fcmp':
            x, y = self.arg(a[0], 'f'), self.arg(a[1], 'f')
            k = n.x
            if k == 'oeq':
                return x == y
            if k == 'one':
                return x != y
            if k == 'ueq':
                return x == y
            if k == 'olt':
                return x < y
            if k == 'ole':
                return x <= y
            if k == 'ord':
                return z3.BoolVal(True)
            if k == 'uno':
                return z3.BoolVal(False)
            raise Exception(k)
        if op == 'call':
            return self.call(n)
        if op in ('si2f', 'ui2f'):
            self.int_seen = True
            return z3.ToReal(z3.BV2Int(self.arg(a[0], n.x), op == 'si2f'))
        if op == 'fround':   # rounding to single precision: identity over the reals
            return self.arg(a[0], 'f')
        if op == 'bits':
            return z3.BitVec('__bits%d' % n.id, n.s)
        if op == 'frombits':
            return z3.Real('__frombits%d' % n.id)
        if op == 'uf':
            return z3.Real('__uf_%s_%d' % (n.x, n.id))
        raise Exception('real: ' + op)

    def call(self, n):
        nm = n.x
        a = [self.arg(y, 'f') for y in n.a]
        if nm == 'floor':
            self.int_seen = True
            return z3.ToReal(z3.ToInt(a[0]))
        if nm == 'ceil':
            self.int_seen = True
            return -z3.ToReal(z3.ToInt(-a[0]))
        if nm == 'trunc':
            self.int_seen = True
            return z3.If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0])), -z3.ToReal(z3.ToInt(-a[0])))
        if nm == 'fmin':
            return z3.If(a[0] <= a[1], a[0], a[1])
        if nm == 'fmax':
            return z3.If(a[0] >= a[1], a[0], a[1])
        if nm == 'pow' and not isinstance(n.a[1], E):
            c = n.a[1]
            if c == int(c) and abs(c) <= 12:
                k = int(abs(c))
                r = z3.RealVal(1)
                for _ in range(k):
                    r = r * a[0] if _ else a[0]
                return r if c > 0 else 1 / r
        return z3.Real('__%s_%d' % (nm, n.id))

    def fpy(self, v):
        return float(z3rat(v))

    # ---- axioms for the uninterpreted libm calls and stub functions appearing in a query
    def axioms(self, roots):
        ax = []
        calls = {}
        ufs = {}
        inf = False
        for n in walk(roots):
            if n.op == 'call' and n.x in ('sqrt', 'exp', 'log', 'log10', 'log1p', 'pow', 'sin', 'cos', 'expm1', 'tan', 'atan'):
                calls.setdefault(n.x, []).append(n)
            elif n.op == 'uf':
                ufs.setdefault(n.x, []).append(n)
        A = lambda v: self.arg(v, 'f')
        M = lambda n: self.memo[n.id]
        one = z3.RealVal(1)
        for n in calls.get('sqrt', []):
            x, s = A(n.a[0]), M(n)
            ax.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
        for n in calls.get('exp', []):
            x, e = A(n.a[0]), M(n)
            ax += [e > 0, (x >= 0) == (e >= 1), (x == 0) == (e == 1), e >= 1 + x, z3.Implies(x < 1, e * (1 - x) <= 1)]
        for n in calls.get('log', []):
            x, l = A(n.a[0]), M(n)
            ax += [z3.Implies(x > 0, z3.And((x >= 1) == (l >= 0), (x == 1) == (l == 0), l <= x - 1, *([] if self.pivots else [l * x >= x - 1])))]
        for n in calls.get('log10', []):
            x, l = A(n.a[0]), M(n) * z3.RealVal(LN10)
            ax += [z3.Implies(x > 0, z3.And((x >= 1) == (l >= 0), (x == 1) == (l == 0), l <= x - 1))]
        for n in calls.get('log1p', []):
            x, l = A(n.a[0]) + 1, M(n)
            ax += [z3.Implies(x > 0, z3.And((x >= 1) == (l >= 0), (x == 1) == (l == 0), l <= x - 1, l * x >= x - 1))]
        for nm in ('exp', 'log', 'log10', 'log1p', 'sqrt'):
            l = calls.get(nm, [])
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    x, y = A(l[i].a[0]), A(l[j].a[0])
                    fx, fy = M(l[i]), M(l[j])
                    dom = z3.BoolVal(True) if nm == 'exp' else (z3.And(x > -1, y > -1) if nm == 'log1p' else z3.And(x > 0, y > 0) if nm != 'sqrt' else z3.And(x >= 0, y >= 0))
                    ax.append(z3.Implies(dom, z3.And((x < y) == (fx < fy), (x == y) == (fx == fy))))
                    if nm == 'exp':
                        # convexity: tangent of one at the other
                        ax.append(fy >= fx * (1 + y - x))
                        ax.append(fx >= fy * (1 + x - y))
        l = calls.get('pow', [])
        for n in l:
            x, p = A(n.a[0]), M(n)
            c = n.a[1]
            if isinstance(c, E):
                ax.append(z3.Implies(x > 0, p > 0))
                ax.append(z3.Implies(x == 1, p == 1))
                ax.append(z3.Implies(A(c) == 0, p == 1))
            elif c == int(c) and abs(c) <= 12:
                continue
            else:
                C = z3.RealVal(rat(c))
                ax.append(z3.Implies(x > 0, p > 0))
                if c > 0:
                    ax.append(z3.Implies(x > 0, z3.And((x >= 1) == (p >= 1), (x == 1) == (p == 1))))
                    ax.append(z3.Implies(x == 0, p == 0))
                else:
                    ax.append(z3.Implies(x > 0, z3.And((x >= 1) == (p <= 1), (x == 1) == (p == 1))))
                tl = 1 + C * (x - 1)
                if 0 < c < 1:
                    ax.append(z3.Implies(x > 0, p <= tl))
                else:
                    ax.append(z3.Implies(x > 0, p >= tl))
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                n, m = l[i], l[j]
                if isinstance(n.a[0], E) or isinstance(m.a[0], E):
                    x, y = A(n.a[0]), A(m.a[0])
                    if not isinstance(n.a[1], E) and not isinstance(m.a[1], E):
                        if n.a[1] == m.a[1]:
                            px, py = M(n), M(m)
                            if n.a[1] > 0:
                                ax.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (px < py), (x == y) == (px == py))))
                            else:
                                ax.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (px > py), (x == y) == (px == py))))
                    else:
                        ax.append(z3.Implies(z3.And(x == y, A(n.a[1]) == A(m.a[1])), M(n) == M(m)))
        for nm in ('sin', 'cos'):
            for n in calls.get(nm, []):
                ax.append(z3.And(M(n) >= -1, M(n) <= 1))
            ufs.setdefault(nm, []).extend(calls.get(nm, []))
        # congruence of stub functions
        for nm, l in ufs.items():
            rg = self.uf_range.get(nm)
            if rg:
                for n in l:
                    ax.append(z3.And(M(n) >= z3.RealVal(rat(rg[0])), M(n) <= z3.RealVal(rat(rg[1]))))
                if rg[2]:
                    for i in range(len(l)):
                        for j in range(i + 1, len(l)):
                            x, y = A(l[i].a[0]), A(l[j].a[0])
                            ax.append(z3.And((x < y) == (M(l[i]) < M(l[j])), (x == y) == (M(l[i]) == M(l[j]))))
                    continue
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    n, m = l[i], l[j]
                    if len(n.a) != len(m.a):
                        continue
                    eqs = []
                    trivial_ne = False
                    for u, v in zip(n.a, m.a):
                        if u is v:
                            continue
                        if not isinstance(u, E) and not isinstance(v, E):
                            if u != v:
                                trivial_ne = True
                                break
                            continue
                        sv = u.s if isinstance(u, E) else v.s
                        eqs.append(self.arg(u, sv) == self.arg(v, sv))
                    if trivial_ne:
                        continue
                    ax.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), M(n) == M(m)))
        if self.has_inf:
            ax.append(z3.Real('__inf__') > z3.RealVal(10**308))
        for n in walk(roots):
            if n.op == 'call':
                l = self.lemmas.get(n.id)
                if l and len(l[0]) > (0 if n.x == 'log' and self.pivots else self.keep_points):
                    del self.lemmas[n.id]      # too many collected facts slow the solver down: start again
                elif l:
                    ax += l[1]
        return ax

    # ---- lazily added facts about libm functions: value, tangent and chord at points near a candidate model
    def fun(self, n):
        """(python function, argument term, curvature, monotone sign, domain) for a unary libm call"""
        nm = n.x
        if nm == 'exp':
            return mp.exp, n.a[0], 1, 1, None
        if nm == 'log':
            return mp.log, n.a[0], -1, 1, 0
        if nm == 'log10':
            return mp.log10, n.a[0], -1, 1, 0
        if nm == 'log1p':
            return (lambda v: mp.log(1 + v)), n.a[0], -1, 1, -1
        if nm == 'pow':
            b, c = n.a
            if isinstance(b, E) and not isinstance(c, E) and c == c and abs(c) < 1e3:
                if c == int(c) and abs(c) <= 12:
                    return None
                q = rat(c)
                cc = mp.mpf(q.numerator) / q.denominator
                return (lambda v: v ** cc), b, (-1 if 0 < c < 1 else 1), (1 if c > 0 else -1), 0
            if isinstance(c, E) and not isinstance(b, E) and b > 0 and b != 1:
                q = rat(b)
                bb = mp.log(mp.mpf(q.numerator) / q.denominator)
                return (lambda v: mp.exp(v * bb)), c, 1, (1 if b > 1 else -1), None
        return None

    def add_point(self, n, f, t):
        """facts about f at the rational t; returns the new z3 constraints"""
        fn, arg, curv, mono, dom = f
        pts, lem = self.lemmas.setdefault(n.id, ([], []))
        if t in [q[0] for q in pts]:
            return []
        tm = mp.mpf(t.numerator) / t.denominator
        v = fn(tm)
        e = abs(v) * mp.mpf(10) ** -28 + mp.mpf(10) ** -60
        lo, hi = mpfrac(v - e), mpfrac(v + e)
        x, y = self.arg(arg, 'f'), self.memo[n.id]
        T = z3.RealVal(t)
        g = [] if dom is None else [x > dom]
        I = lambda c, d: z3.Implies(z3.And(*(g + c)), d) if g + c else d
        out = []
        if mono > 0:
            out += [I([x <= T], y <= z3.RealVal(hi)), I([x >= T], y >= z3.RealVal(lo))]
        else:
            out += [I([x >= T], y <= z3.RealVal(hi)), I([x <= T], y >= z3.RealVal(lo))]
        # tangent
        d = mp.diff(fn, tm)
        k = mpfrac(d)
        err = abs(d) * mp.mpf(10) ** -12
        # the slope is rounded: allow for it with the distance
        if curv > 0:
            out += [I([x >= T], y >= z3.RealVal(lo) + z3.RealVal(mpfrac(d - err)) * (x - T)), I([x <= T], y >= z3.RealVal(lo) + z3.RealVal(mpfrac(d + err)) * (x - T))]
        else:
            out += [I([x >= T], y <= z3.RealVal(hi) + z3.RealVal(mpfrac(d + err)) * (x - T)), I([x <= T], y <= z3.RealVal(hi) + z3.RealVal(mpfrac(d - err)) * (x - T))]
        pts.append((t, v))
        pts.sort()
        i = [q[0] for q in pts].index(t)
        for a, b in ((i - 1, i), (i, i + 1)):
            if a < 0 or b >= len(pts):
                continue
            (t1, v1), (t2, v2) = pts[a], pts[b]
            s_ = (v2 - v1) / (mp.mpf(t2.numerator) / t2.denominator - mp.mpf(t1.numerator) / t1.denominator)
            m1 = abs(v1) * mp.mpf(10) ** -20 + abs(v2 - v1) * mp.mpf(10) ** -20
            T1, T2 = z3.RealVal(t1), z3.RealVal(t2)
            if curv > 0:
                out.append(I([x >= T1, x <= T2], y <= z3.RealVal(mpfrac(v1 + m1)) + z3.RealVal(mpfrac(s_)) * (x - T1)))
            else:
                out.append(I([x >= T1, x <= T2], y >= z3.RealVal(mpfrac(v1 - m1)) + z3.RealVal(mpfrac(s_)) * (x - T1)))
        lem += out
        return out

    def refine(self, m, cs):
        """facts violated by the model m of the query"""
        new = []
        for n in walk(cs):
            if n.op != 'call':
                continue
            f = self.fun(n)
            if f is None:
                continue
            try:
                x = z3rat(m.eval(self.arg(f[1], 'f'), model_completion=True))
                y = z3rat(m.eval(self.memo[n.id], model_completion=True))
                if f[4] is not None and x <= f[4]:
                    continue
                if f[4] is None and abs(x) > 400:
                    continue
                if x != 0 and not (Fraction(1, 10 ** 40) < abs(x) < 10 ** 40):
                    continue
                xm = mp.mpf(x.numerator) / x.denominator
                v = f[0](xm)
                ym = mp.mpf(y.numerator) / y.denominator
                if abs(v - ym) <= mp.mpf(self.fun_tol) * abs(v) + mp.mpf(10) ** -15:
                    continue
            except Exception:
                continue
            pv = self.pivots if n.x == 'log' else ()
            got = []
            if pv:
                i = bisect.bisect_left(pv, float(x))
                for j in (i - 1, i):
                    if 0 <= j < len(pv):
                        got += self.add_point(n, f, Fraction(pv[j]))
            if not got:
                t = x if x.denominator < 10 ** 18 and abs(x.numerator) < 10 ** 18 else Fraction('%.17g' % float(x))
                if f[4] is not None and t <= f[4]:
                    continue
                got = self.add_point(n, f, t)
            new += got
        return new

    def solvers(self, cs, timeout):
        # default solver copes with linear / mixed; nlsat for nonlinear real arithmetic
        nonlin = False
        other = False
        for n in walk(cs):
            if n.op in ('fmul', 'fdiv'):
                if isinstance(n.a[1], E) and (isinstance(n.a[0], E) or n.op == 'fdiv'):
                    nonlin = True
                    break
            elif n.op == 'call' and (n.x in ('sqrt', 'exp', 'pow', 'log1p') or n.x == 'log' and not self.pivots):
                nonlin = True
                break
        if nonlin:
            yield 'z3', z3.Solver(), timeout * 0.3
            try:
                yield 'z3-nra', z3.SolverFor('QF_NRA'), timeout * 0.7
            except z3.Z3Exception:
                pass
        else:
            yield 'z3', z3.Solver(), timeout


class FPBackend(Backend):
    name = 'ieee'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.uf_range = {}
        self.S = z3.Float64()
        self.rm = z3.RNE()
        self.fn = {}

    def fconst(self, v):
        return z3.fpBVToFP(z3.BitVecVal(f2bits(v), 64), self.S) if False else z3.FPVal(v, self.S)

    def fvar(self, name):
        return z3.FP(name, self.S)

    def fnode(self, n):
        op = n.op
        a = n.a
        A = lambda v: self.arg(v, 'f')
        if op == 'fadd':
            return z3.fpAdd(self.rm, A(a[0]), A(a[1]))
        if op == 'fsub':
            return z3.fpSub(self.rm, A(a[0]), A(a[1]))
        if op == 'fmul':
            return z3.fpMul(self.rm, A(a[0]), A(a[1]))
        if op == 'fdiv':
            return z3.fpDiv(self.rm, A(a[0]), A(a[1]))
        if op == 'fneg':
            return z3.fpNeg(A(a[0]))
        if op == 'fabs':
            return z3.fpAbs(A(a[0]))
        if op == 'fcmp':
            x, y = A(a[0]), A(a[1])
            k = n.x
            if k == 'oeq':
                return z3.fpEQ(x, y)
            if k == 'olt':
                return z3.fpLT(x, y)
            if k == 'ole':
                return z3.fpLEQ(x, y)
            if k == 'ord':
                return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))
            if k == 'uno':
                return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if k == 'one':
                return z3.Or(z3.fpLT(x, y), z3.fpGT(x, y))
            if k == 'ueq':
                return z3.Not(z3.Or(z3.fpLT(x, y), z3.fpGT(x, y)))
            raise Exception(k)
        if op == 'call':
            if n.x == 'sqrt':
                return z3.fpSqrt(self.rm, A(a[0]))
            if n.x == 'floor':
                return z3.fpRoundToIntegral(z3.RTN(), A(a[0]))
            if n.x == 'ceil':
                return z3.fpRoundToIntegral(z3.RTP(), A(a[0]))
            if n.x == 'trunc':
                return z3.fpRoundToIntegral(z3.RTZ(), A(a[0]))
            f = self.fn.get((n.x, len(a)))
            if f is None:
                f = z3.Function('__' + n.x, *([self.S] * (len(a) + 1)))
                self.fn[(n.x, len(a))] = f
            return f(*[A(y) for y in a])
        if op == 'uf':
            srt = [self.S if (not isinstance(y, E) and isinstance(y, float)) or (isinstance(y, E) and y.s == 'f') else
                   z3.BitVecSort(y.s if isinstance(y, E) else 64) for y in a]
            key = (n.x, tuple(str(q) for q in srt))
            f = self.fn.get(key)
            if f is None:
                f = z3.Function('__uf_' + n.x + '_%d' % len(self.fn), *(srt + [self.S]))
                self.fn[key] = f
            return f(*[self.arg(y, y.s if isinstance(y, E) else 'f' if isinstance(y, float) else 64) for y in a])
        if op == 'si2f':
            return z3.fpSignedToFP(self.rm, self.arg(a[0], n.x), self.S)
        if op == 'ui2f':
            return z3.fpUnsignedToFP(self.rm, self.arg(a[0], n.x), self.S)
        if op == 'fround':
            return z3.fpToFP(self.rm, z3.fpToFP(self.rm, A(a[0]), z3.Float32()), self.S)
        if op == 'f2si':
            return z3.fpToSBV(z3.RTZ(), A(a[0]), z3.BitVecSort(n.s))
        if op == 'bits':
            return z3.fpToIEEEBV(A(a[0]))
        if op == 'frombits':
            return z3.fpBVToFP(self.arg(a[0], 64), self.S)
        raise Exception('fp: ' + op)

    def fpy(self, v):
        import struct
        if z3.is_fp_value(v) or True:
            b = z3.simplify(z3.fpToIEEEBV(v))
            if z3.is_bv_value(b):
                return struct.unpack('<d', struct.pack('<Q', b.as_long()))[0]
        return math.nan
