"""Hash-consed expression DAG.

Concrete values are plain python objects: int (bit-vector, unsigned canonical form; i1 is 0/1) and
float (IEEE double, folded exactly).  Everything symbolic is an E node.
Sorts: 'b' (bool), int n (bit-vector of width n), 'f' (floating point value).
"""
import math, struct


class E:
    __slots__ = ('op', 'a', 's', 'id', 'x')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]


def fkey(v):
    return ('F', struct.pack('<d', v))


def mk(op, s, a, x=None):
    key = [op, s, x]
    for y in a:
        if isinstance(y, E):
            key.append(y.id)
        elif isinstance(y, float):
            key.append(fkey(y))
        else:
            key.append(('c', y))
    key = tuple(key)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.s = s
        e.a = a
        e.x = x
        _cnt[0] += 1
        e.id = _cnt[0]
        _tab[key] = e
    return e


def var(name, s):
    return mk('var', s, (), name)


def show(e, d=6):
    if not isinstance(e, E):
        return repr(e)
    if e.op == 'var':
        return e.x
    if d == 0:
        return '#%d' % e.id
    return '(%s%s %s)' % (e.op, ':' + str(e.x) if e.x is not None else '', ' '.join(show(y, d - 1) for y in e.a))


def is_sym(v):
    return isinstance(v, E)


# ---------------------------------------------------------------- booleans
def b_not(a):
    if not isinstance(a, E):
        return 0 if a else 1
    if a.op == 'not':
        return a.a[0]
    return mk('not', 'b', (a,))


def b_and(a, b):
    if not isinstance(a, E):
        return b if a else 0
    if not isinstance(b, E):
        return a if b else 0
    if a is b:
        return a
    return mk('and', 'b', (a, b))


def b_or(a, b):
    if not isinstance(a, E):
        return 1 if a else b
    if not isinstance(b, E):
        return 1 if b else a
    if a is b:
        return a
    return mk('or', 'b', (a, b))


def b_xor(a, b):
    if not isinstance(a, E):
        return b_not(b) if a else b
    if not isinstance(b, E):
        return b_not(a) if b else a
    return mk('xor', 'b', (a, b))


def conj(l):
    r = 1
    for x in l:
        r = b_and(r, x)
    return r


def disj(l):
    r = 0
    for x in l:
        r = b_or(r, x)
    return r


def sort_of(v):
    if isinstance(v, E):
        return v.s
    if isinstance(v, float):
        return 'f'
    return 'i'


def ite(c, a, b, s=None):
    if not isinstance(c, E):
        return a if c else b
    if a is b:
        return a
    if not isinstance(a, E) and not isinstance(b, E):
        if isinstance(a, float) and isinstance(b, float):
            if fkey(a) == fkey(b):
                return a
        elif type(a) == type(b) and a == b:
            return a
        if s == 'b':
            if a and not b:
                return c
            if b and not a:
                return b_not(c)
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if s == 'b':
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if s is None:
        s = a.s if isinstance(a, E) else b.s if isinstance(b, E) else ('f' if isinstance(a, float) else 64)
    return mk('ite', s, (c, a, b))


# ---------------------------------------------------------------- bit-vectors
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def msk(v, w):
    return v & ((1 << w) - 1)


def bv_bin(op, w, a, b):
    sa = isinstance(a, E)
    sb = isinstance(b, E)
    if not sa and not sb:
        if op == 'add':
            return msk(a + b, w)
        if op == 'sub':
            return msk(a - b, w)
        if op == 'mul':
            return msk(a * b, w)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return msk(a << b, w) if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return msk(sgn(a, w) >> min(b, w - 1), w)
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return msk(q if (x < 0) == (y < 0) else -q, w)
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return msk(r if x >= 0 else -r, w)
        raise Exception(op)
    if w == 1:
        if op == 'and':
            return b_and(a, b)
        if op == 'or':
            return b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            return b_xor(a, b)
        raise Exception('i1 ' + op)
    # identities
    if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and not sb and b == 0:
        return a
    if op in ('add', 'or', 'xor') and not sa and a == 0:
        return b
    if op == 'mul':
        if not sb and b == 1:
            return a
        if not sa and a == 1:
            return b
        if (not sb and b == 0) or (not sa and a == 0):
            return 0
    if op in ('sdiv', 'udiv') and not sb and b == 1:
        return a
    if op == 'sub' and a is b:
        return 0
    if op == 'and' and ((not sa and a == 0) or (not sb and b == 0)):
        return 0
    if op == 'and' and not sb and b == (1 << w) - 1:
        return a
    if op == 'and' and not sb and b == 1 and a.op == 'b2bv':
        return a
    if op == 'add':
        # constants to the right, fold nested
        if not sa:
            a, b = b, a
            sa, sb = sb, sa
        if not sb and a.op == 'bv' and a.x == 'add' and not isinstance(a.a[1], E):
            return bv_bin('add', w, a.a[0], msk(a.a[1] + b, w))
    if op == 'sub':
        if not sb:
            return bv_bin('add', w, a, msk(-b, w))
        # (x + c1) - (x + c2)
        xa, ca = split_add(a, w)
        xb, cb = split_add(b, w)
        if xa is xb:
            return msk(ca - cb, w)
    if op == 'mul' and not sa:
        a, b = b, a
    # packing and unpacking of small structures in registers
    if op == 'shl' and not sb and b < w and a.op == 'zext' and a.x + b == w:
        return concat(a.a[0], a.x, 0, b)
    if op == 'lshr' and not sb and b < w and a.op == 'concat' and a.x <= b:
        return zext(extract(a, b, w - b, w), w - b, w)
    if op == 'or':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, E) and x.op == 'concat' and not isinstance(x.a[1], E) and x.a[1] == 0:
                if not isinstance(y, E):
                    if y < 1 << x.x:
                        return concat(x.a[0], w - x.x, y, x.x)
                elif y.op == 'zext' and y.x <= x.x:
                    return concat(x.a[0], w - x.x, y.a[0] if y.x == x.x else zext(y.a[0], y.x, x.x), x.x)
    return mk('bv', w, (a, b), op)


def split_add(a, w):
    if isinstance(a, E):
        if a.op == 'bv' and a.x == 'add' and not isinstance(a.a[1], E):
            return a.a[0], a.a[1]
        return a, 0
    return None, a


def icmp(pred, w, a, b):
    sa = isinstance(a, E)
    sb = isinstance(b, E)
    if not sa and not sb:
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        k = pred[1:]
        return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
    if w == 1:
        if pred == 'eq':
            return b_not(b_xor(a, b))
        if pred == 'ne':
            return b_xor(a, b)
        raise Exception('icmp i1')
    if a is b:
        return int(pred in ('eq', 'sle', 'sge', 'ule', 'uge'))
    if pred in ('eq', 'ne'):
        if not sa:
            a, b = b, a
            sa, sb = sb, sa
        if not sb and a.op == 'b2bv':
            if b == 0:
                r = b_not(a.a[0])
            elif b == 1:
                r = a.a[0]
            else:
                r = 0
            return r if pred == 'eq' else b_not(r)
        if not sb and a.op == 'ite':
            r = ite(a.a[0], icmp('eq', w, a.a[1], b), icmp('eq', w, a.a[2], b), 'b')
            return r if pred == 'eq' else b_not(r)
        r = mk('icmp', 'b', (a, b), 'eq')
        return r if pred == 'eq' else b_not(r)
    if pred[1:] in ('gt', 'ge'):
        a, b = b, a
        pred = pred[0] + ('lt' if pred[1:] == 'gt' else 'le')
    if pred[1:] == 'le':
        return b_not(mk('icmp', 'b', (b, a), pred[0] + 'lt'))
    return mk('icmp', 'b', (a, b), pred)


def zext(a, w1, w2):
    if not isinstance(a, E):
        return a
    if w1 == 1:
        return mk('b2bv', w2, (a,))
    if a.op == 'b2bv':
        return mk('b2bv', w2, a.a)
    if a.op == 'zext':
        return zext(a.a[0], a.x, w2)
    return mk('zext', w2, (a,), w1)


def sext(a, w1, w2):
    if not isinstance(a, E):
        return msk(sgn(a, w1), w2)
    if w1 == 1:
        return mk('ite', w2, (a, msk(-1, w2), 0))
    if a.op == 'ite':
        return ite(a.a[0], sext(a.a[1], w1, w2), sext(a.a[2], w1, w2), w2)
    return mk('sext', w2, (a,), w1)


def trunc(a, w1, w2):
    if not isinstance(a, E):
        return msk(a, w2)
    if a.op == 'b2bv':
        return a.a[0] if w2 == 1 else mk('b2bv', w2, a.a)
    if a.op in ('zext', 'sext'):
        w0 = a.x
        if w0 == w2:
            return a.a[0]
        if w0 > w2:
            return trunc(a.a[0], w0, w2)
    if a.op == 'ite':
        return ite(a.a[0], trunc(a.a[1], w1, w2), trunc(a.a[2], w1, w2), 'b' if w2 == 1 else w2)
    if a.op == 'concat' and w2 <= a.x:
        return a.a[1] if w2 == a.x else trunc(a.a[1], a.x, w2)
    if w2 == 1:
        return mk('bv2b', 'b', (a,))
    return mk('extract', w2, (a,), (0, w1))


def extract(a, lo, n, w):
    """n bits from bit lo of a w-bit value"""
    if lo == 0 and n == w:
        return a
    if not isinstance(a, E):
        return (a >> lo) & ((1 << n) - 1)
    if a.op == 'concat':
        hi, lov = a.a
        wl = a.x
        if lo + n <= wl:
            return extract(lov, lo, n, wl)
        if lo >= wl:
            return extract(hi, lo - wl, n, w - wl)
    if lo == 0:
        return trunc(a, w, n)
    if a.op in ('zext', 'b2bv'):
        w0 = a.x if a.op == 'zext' else 1
        if lo >= w0:
            return 0
    return mk('extract', n, (a,), (lo, w))


def concat(hi, wh, lo, wl):
    if not isinstance(hi, E) and not isinstance(lo, E):
        return (hi << wl) | lo
    return mk('concat', wh + wl, (hi, lo), wl)


# ---------------------------------------------------------------- floating point
def f2bits(v):
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def bits2f(v):
    return struct.unpack('<d', struct.pack('<Q', v))[0]


def f32bits(v):
    return struct.unpack('<I', struct.pack('<f', v))[0]


def bits2f32(v):
    return struct.unpack('<f', struct.pack('<I', v))[0]


def fdiv_c(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


COMM = {'fadd', 'fmul'}
SQUARE = {}          # id of a root -> (root, radicand), set by the executor for roots it rewrites
IEEE = [False]       # floating point instead of real arithmetic


def fbin(op, a, b):
    sa = isinstance(a, E)
    sb = isinstance(b, E)
    if not sa and not sb:
        try:
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                return fdiv_c(a, b)
            if op == 'frem':
                return math.fmod(a, b)
        except OverflowError:
            return math.inf
    if op == 'fmul':
        if a is b and a.id in SQUARE:
            return SQUARE[a.id][1]
        if not sb and b == 1.0:
            return a
        if not sa and a == 1.0:
            return b
    if op == 'fdiv' and not sb and b == 1.0:
        return a
    if op == 'fdiv' and not sb and math.isinf(b) and not IEEE[0]:
        return 0.0      # reals are finite
    if op in ('fsub',) and not sb and b == 0.0 and math.copysign(1.0, b) > 0:
        return a
    if op in COMM:
        # IEEE addition and multiplication commute: canonical order
        ka = (0, a.id) if sa else (1, fkey(a)[1])
        kb = (0, b.id) if sb else (1, fkey(b)[1])
        if kb < ka:
            a, b = b, a
    return mk(op, 'f', (a, b))


def fneg(a):
    if not isinstance(a, E):
        return -a
    if a.op == 'fneg':
        return a.a[0]
    return mk('fneg', 'f', (a,))


def fabs_(a):
    if not isinstance(a, E):
        return abs(a)
    if a.op == 'fabs':
        return a
    return mk('fabs', 'f', (a,))


def fcmp(pred, a, b):
    sa = isinstance(a, E)
    sb = isinstance(b, E)
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if not sa and not sb:
        un = a != a or b != b
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        k = pred[1:]
        if un:
            return int(pred[0] == 'u')
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
    k = pred[1:]
    if k in ('gt', 'ge'):
        a, b = b, a
        pred = pred[0] + ('lt' if k == 'gt' else 'le')
    if pred in ('une',):
        return b_not(mk('fcmp', 'b', order2(a, b), 'oeq'))
    if pred == 'oeq':
        return mk('fcmp', 'b', order2(a, b), 'oeq')
    # ult(a,b) = not ole(b,a);  ule(a,b) = not olt(b,a)
    if pred == 'ult':
        return b_not(mk('fcmp', 'b', (b, a), 'ole'))
    if pred == 'ule':
        return b_not(mk('fcmp', 'b', (b, a), 'olt'))
    return mk('fcmp', 'b', (a, b), pred)


def order2(a, b):
    ka = (0, a.id) if isinstance(a, E) else (1, fkey(a)[1])
    kb = (0, b.id) if isinstance(b, E) else (1, fkey(b)[1])
    return (a, b) if ka <= kb else (b, a)


def cfun(name, args):
    """libm call on concrete values; None if not computable"""
    try:
        f = CF[name]
        return f(*args)
    except ValueError:
        # domain errors follow C conventions
        if name in ('log', 'log10') and args[0] == 0.0:
            return -math.inf
        if name == 'pow':
            x, y = args
            if x == 0.0 and y < 0:
                return math.inf
        return math.nan
    except OverflowError:
        if name == 'pow' and args[0] < 0:
            return math.nan
        return math.inf
    except ZeroDivisionError:
        return math.inf


CF = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log1p': math.log1p, 'sqrt': math.sqrt, 'pow': math.pow,
      'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'atan2': math.atan2, 'expm1': math.expm1,
      'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asin': math.asin, 'acos': math.acos,
      'hypot': math.hypot, 'log2': math.log2, 'exp2': lambda x: math.pow(2.0, x), 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x),
      'fmod': math.fmod, 'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x,
      'ceil': lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
      'trunc': lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
      'round': lambda x: float(math.floor(abs(x) + 0.5)) * math.copysign(1, x) if math.isfinite(x) else x,
      'fmin': lambda x, y: y if x != x else x if y != y else min(x, y),
      'fmax': lambda x, y: y if x != x else x if y != y else max(x, y)}


def fcall(name, args):
    if not any(isinstance(a, E) for a in args):
        return cfun(name, args)
    if name == 'pow':
        y = args[1]
        if not isinstance(y, E):
            if y == 1.0:
                return args[0]
            if y == 2.0:
                return fbin('fmul', args[0], args[0])
    return mk('call', 'f', tuple(args), name)


def walk(roots, seen=None):
    """post-order over nodes"""
    seen = set() if seen is None else seen
    out = []
    st = [(r, False) for r in roots if isinstance(r, E)]
    while st:
        e, done = st.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, True))
        for y in e.a:
            if isinstance(y, E) and y.id not in seen:
                st.append((y, False))
    return out
