"""Symbolic executor for LLVM IR of the code under check.

One State = call stack + copy-on-write memory + path condition.  Branches on symbolic conditions fork
after a solver feasibility query; memory accesses, signed overflow and float->int conversions carry
implicit assertions; the harness intrinsics (vs_*) introduce symbolic inputs, assumptions and assertions.
"""
import math, re, time, sys
from . import expr as X
from .expr import E, mk, var, ite, b_not, b_and, b_or, conj, disj, bv_bin, icmp, zext, sext, trunc, extract, concat, fbin, fneg, fabs_, fcmp, fcall, walk, sgn, msk, f2bits, bits2f, f32bits, bits2f32
import struct
from . import poly

M64 = (1 << 64) - 1
INF = float('inf')
FUNC_BASE = 0x7000000


class EngineError(Exception):
    pass


class PathEnd(Exception):
    """path terminated (assume false / violation on all continuations)"""


class Bound(Exception):
    """a stated bound was exceeded"""


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'name', 'zero', 'maxc', 'own', 'kind', 'lazy', 'const')

    def __init__(self, size, name, kind):
        self.size = size
        self.cells = {}
        self.alive = True
        self.name = name
        self.zero = []      # list of (lo,hi) zero-filled where no cell exists
        self.maxc = 8
        self.own = None
        self.kind = kind
        self.lazy = None
        self.const = False

    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.name = self.name
        o.zero = list(self.zero)
        o.maxc = self.maxc
        o.kind = self.kind
        o.lazy = self.lazy
        o.const = self.const
        o.own = None
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'code', 'ip', 'prev', 'label', 'res', 'allocas', 'visits', 'depthmark')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.code = self.code
        f.ip = self.ip
        f.prev = self.prev
        f.label = self.label
        f.res = self.res
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.depthmark = self.depthmark
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'steps', 'token', 'wit', 'choices', 'labels', 'obs', 'nobj', 'ufs', 'depth')

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.steps = self.steps
        s.token = object()
        self.token = object()    # both sides must copy before writing
        s.wit = self.wit
        s.choices = dict(self.choices)
        s.labels = set(self.labels)
        s.obs = list(self.obs)
        s.nobj = self.nobj
        s.ufs = list(self.ufs)
        s.depth = self.depth
        return s


LIBM = {'exp': 1, 'log': 1, 'log10': 1, 'log1p': 1, 'sqrt': 1, 'pow': 2, 'sin': 1, 'cos': 1, 'tan': 1, 'atan': 1, 'atan2': 2,
        'expm1': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'asin': 1, 'acos': 1, 'hypot': 2, 'log2': 1, 'exp2': 1, 'cbrt': 1, 'fmod': 2,
        'floor': 1, 'ceil': 1, 'trunc': 1, 'round': 1, 'fmin': 2, 'fmax': 2, 'fabs': 1}


def f32(v):
    if isinstance(v, E):
        return mk('fround', 'f', (v,))
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


class Opts:
    mode = 'real'           # backend for path feasibility and checks
    merge = ()              # regexes of functions merged at return
    max_steps = 20_000_000
    max_paths = 4000
    max_visits = 3000       # loop bound per block per frame (symbolic branching)
    split_select = False    # separate paths instead of conditional values for selections between numbers
    icp = 0                 # boxes tried by interval bisection before the solver is asked
    cut_loops = False       # drop (and count) paths that reach the loop bound instead of giving up the case
    feas_timeout = 3.0
    check_timeout = 60.0
    max_enum = 700
    deadline = None
    max_viol = 3
    log_pivots = ()
    stop_on_violation = False


class Engine:
    def __init__(self, module, backend, opts, log=None):
        self.m = module
        self.T = module.types
        self.be = backend
        self.nf = poly.Normal()
        self.nfi = poly.Normal(True)
        self.ivals = {}
        self.abstracted = {}
        self.normalised = 0
        self.stop = None
        self.cut = 0
        self.call_args = {}
        self.uf_args = {}
        self.den_cache = {}
        self.abounds = {}
        self.o = opts
        X.IEEE[0] = opts.mode == 'ieee'
        self.log = log or (lambda *a: None)
        self.globals = {}
        self.funcs_addr = {}
        self.addr_funcs = {}
        self.codes = {}
        self.fresh = 0
        self.inputs = {}        # name -> dict(kind, lo, hi, pref, var)
        self.viol = []
        self.inconclusive = []
        self.labels = {}        # label -> [reached, unsat, sat, unknown]
        self.paths = 0
        self.forks = 0
        self.steps = 0
        self.functions = set()
        self.path_models = []
        self.boxed = 0
        self.merged = 0
        self.unknown_feas = 0
        self.on_violation = None
        self.undef_reads = 0
        self.covered = set()
        self.handlers = {}
        self.varcache = {}
        self.feas_cache = {}
        self.bound_hits = []
        self.mergere = [re.compile(r) for r in opts.merge]
        self.mergecache = {}
        self.done_states = []
        self.gaxioms = []
        self.setup_ops()

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, kind):
        st.nobj += 1
        o = Obj(size, name, kind)
        o.own = st.token
        st.mem[st.nobj] = o
        return st.nobj << 32

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.own is not st.token:
            if o.lazy is not None:
                self.force(o)
            o = o.clone()
            o.own = st.token
            st.mem[oid] = o
        elif o.lazy is not None:
            self.force(o)
        return o

    def force(self, o):
        l = o.lazy
        o.lazy = None
        self.init_cells(o, 0, l[0], l[1])

    def init_cells(self, o, off, t, op):
        t = self.T.resolve(t)
        k = op[0]
        if k == 'z' or (k == 'c' and op[1] is None):
            o.zero.append((off, off + self.T.size(t)))
            return
        if k == 'u':
            return
        if k == 's':
            for i, b in enumerate(op[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'arr':
                es = self.T.size(t[2])
                for i, (et, eo) in enumerate(op[1]):
                    self.init_cells(o, off + i * es, et, eo)
            elif t[0] == 'vec':
                es = self.T.size(t[2])
                for i, (et, eo) in enumerate(op[1]):
                    self.init_cells(o, off + i * es, et, eo)
            else:
                offs, _ = self.T.offsets(t)
                for (et, eo), d in zip(op[1], offs):
                    self.init_cells(o, off + d, et, eo)
            return
        v = self.const(op, t)
        self.put(o, off, t, v)

    def put(self, o, off, t, v):
        sz = self.T.size(t)
        if isinstance(v, float) and t[0] == 'float':
            o.cells[off] = (4, v)
        elif t[0] == 'i' and t[1] == 1:
            o.cells[off] = (1, zext(v, 1, 8))
        else:
            o.cells[off] = (sz, v)
        if sz > o.maxc:
            o.maxc = sz

    def global_ptr(self, st, name):
        p = self.globals.get(name)
        if p is None:
            if name in self.m.aliases:
                op = self.m.aliases[name]
                p = self.const(op, ('ptr',))
                self.globals[name] = p
                return p
            if name in self.m.functions or name in self.m.declares:
                p = self.funcs_addr.get(name)
                if p is None:
                    p = (FUNC_BASE + len(self.funcs_addr) + 1) << 32
                    self.funcs_addr[name] = p
                    self.addr_funcs[p] = name
                return p
            raise EngineError('unknown global ' + name)
        return p

    def init_globals(self, st):
        for name, g in self.m.globals.items():
            t, init, const = g
            if name in ('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used'):
                continue
            sz = self.T.size(t) if t[0] != 'func' else 8
            p = self.new_obj(st, sz, name, 'global')
            self.globals[name] = p
            o = st.mem[p >> 32]
            if init is None:
                o.zero.append((0, sz))      # external data: zero
            else:
                o.lazy = (t, init)
            o.const = bool(const)

    # ------------------------------------------------------------ constants
    def const(self, op, t):
        k = op[0]
        if k == 'c':
            v = op[1]
            if v is None:
                return 0
            return v
        if k == 'g':
            return self.global_ptr(None, op[1])
        if k == 'z':
            return self.zero(op[1])
        if k == 'u':
            return self.undef(op[1])
        if k == 'agg':
            return tuple(self.const(o, tt) for tt, o in op[1])
        if k == 'gep':
            return self.gep(op[1], [(tt, self.const(o, tt)) for tt, o in op[2]])
        if k == 'cast':
            return self.const(op[3], op[2]) if op[1] in ('ptrtoint', 'inttoptr', 'bitcast') else self.cast(op[1], self.const(op[3], op[2]), op[2], op[4])
        if k == 's':
            return tuple(op[1])
        raise EngineError('const %r' % (op,))

    def zero(self, t):
        t = self.T.resolve(t)
        k = t[0]
        if k in ('double', 'float'):
            return 0.0
        if k == 'arr' or k == 'vec':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        if k == 'struct':
            return tuple(self.zero(x) for x in t[1])
        return 0

    def undef(self, t):
        t = self.T.resolve(t)
        k = t[0]
        if k == 'arr' or k == 'vec':
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        if k == 'struct':
            return tuple(self.undef(x) for x in t[1])
        self.fresh += 1
        n = '__undef%d' % self.fresh
        if k in ('double', 'float'):
            return var(n, 'f')
        if k == 'ptr':
            return var(n, 64)
        return var(n, 'b' if t[1] == 1 else t[1])

    def gep(self, bt, args):
        t0, p = args[0]
        off = 0
        sym = None

        def addidx(i, w, scale):
            nonlocal off, sym
            if isinstance(i, E):
                i64 = sext(i, w, 64)
                x = bv_bin('mul', 64, i64, scale & M64)
                sym = x if sym is None else bv_bin('add', 64, sym, x)
            else:
                off += sgn(i, w) * scale
        it, iv = args[1]
        addidx(iv, it[1], self.T.size(bt))
        t = bt
        for it, iv in args[2:]:
            t = self.T.resolve(t)
            if t[0] == 'struct':
                offs, _ = self.T.offsets(t)
                off += offs[iv]
                t = t[1][iv]
            elif t[0] in ('arr', 'vec'):
                addidx(iv, it[1], self.T.size(t[2]))
                t = t[2]
            else:
                raise EngineError('gep %r' % (t,))
        return self.padd(p, off, sym)

    def padd(self, p, off, sym):
        if isinstance(p, E) and p.op == 'ite':
            return ite(p.a[0], self.padd(p.a[1], off, sym), self.padd(p.a[2], off, sym), 64)
        r = bv_bin('add', 64, p, off & M64)
        if sym is not None:
            r = bv_bin('add', 64, r, sym) if isinstance(r, E) else bv_bin('add', 64, sym, r)
        return r

    # ------------------------------------------------------------ queries
    def vars_of(self, e):
        r = self.varcache.get(e.id)
        if r is None:
            for n in walk([e]):
                if n.id not in self.varcache:
                    if n.op == 'var':
                        self.varcache[n.id] = frozenset((n.id,))
                    else:
                        s = frozenset()
                        for y in n.a:
                            if isinstance(y, E):
                                s |= self.varcache[y.id]
                        if n.op == 'uf':
                            s |= frozenset((n.x,))
                        self.varcache[n.id] = s
            r = self.varcache[e.id]
        return r

    def slice(self, pc, q):
        vs = set()
        for e in q:
            if isinstance(e, E):
                vs |= self.vars_of(e)
        rest = list(pc)
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                if self.vars_of(c) & vs:
                    out.append(c)
                    vs |= self.vars_of(c)
                    ch = True
                else:
                    nr.append(c)
            rest = nr
        return out

    def feasible(self, st, c, timeout=None):
        """is pc & c satisfiable?  unknown counts as feasible"""
        if not isinstance(c, E):
            return bool(c)
        if self.never(c):
            return False
        sl = self.slice(st.pc, [c])
        key = (c.id, tuple(sorted(x.id for x in sl)))
        r = self.feas_cache.get(key)
        if r is None:
            s = self.refuted(sl + [c]) if self.o.icp else None
            if s is None:
                s, _ = self.be.check(sl + [c] + self.gaxioms, timeout or self.o.feas_timeout, want_model=False)
            r = s != 'unsat'
            if s == 'unknown':
                self.unknown_feas += 1
            self.feas_cache[key] = r
        return r

    def add_pc(self, st, c):
        if not isinstance(c, E):
            if not c:
                raise PathEnd()
            return
        if c.op == 'and':
            self.add_pc(st, c.a[0])
            self.add_pc(st, c.a[1])
            return
        if c in st.pc:
            return
        st.pc.append(c)

    # ------------------------------------------------------------ implicit/explicit assertions
    def require(self, st, cond, label, kind='ub'):
        """assert cond on this path; continue with cond assumed"""
        ent = self.labels.setdefault(label, {'kind': kind, 'checks': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'trivial': 0, 'reach': 0})
        ent['checks'] += 1
        if not isinstance(cond, E):
            ent['trivial'] += 1
            if cond:
                return
            # concretely false on this path: violated if path is feasible
            neg = None
        else:
            neg = b_not(cond)
        self.check_deadline()
        q = [neg] if neg is not None else []
        sl = self.slice(st.pc, q) if q else []
        s, m = ('sat', None)
        if q:
            if not self.prune(st, sl, q):
                s = 'unsat'
            else:
                s, m = self.be.check(sl + q + self.gaxioms, self.o.check_timeout, want_model=True)
        if s == 'unsat':
            ent['unsat'] += 1
            return
        if s == 'unknown':
            ent['unknown'] += 1
            if not self.witnesses(st, q, label, kind, ent):
                self.inconclusive.append((label, 'solver unknown', None))
        else:
            ent['sat'] += 1
            self.candidate(st, q, label, kind, m)
        if not isinstance(cond, E):
            raise PathEnd()
        if not self.feasible(st, cond):
            raise PathEnd()
        self.add_pc(st, cond)

    def prune(self, st, sl, q):
        """False if pc & q is unsatisfiable already with every called function an arbitrary value in its range"""
        if any(self.never(c) for c in q) or self.o.icp and self.refuted(sl + q) == 'unsat':
            return False
        if self.o.mode == 'ieee' or not any(n.op == 'call' for n in walk(q)):
            return True
        new = [self.abstract(c) for c in q + sl]
        ax = []
        for n in walk(new):
            if n.op == 'var' and n.x.startswith('~'):
                lo, hi = self.ivals.get(int(n.x[1:]), (-INF, INF))
                if lo > -INF:
                    ax.append(fcmp('oge', n, lo))
                if hi < INF:
                    ax.append(fcmp('ole', n, hi))
        return self.be.check(new + ax, 1.0, want_model=False)[0] != 'unsat'

    def never(self, c):
        """the comparison c is false because of the ranges of its sides"""
        if self.o.mode == 'ieee':
            return False
        if c.op in ('and', 'or'):
            return (any if c.op == 'and' else all)(not x if not isinstance(x, E) else self.never(x) for x in c.a)
        inv = c.op == 'not'
        if inv:
            c = c.a[0]
            if isinstance(c, E) and c.op in ('and', 'or'):
                return (all if c.op == 'and' else any)(bool(x) if not isinstance(x, E) else self.never(b_not(x)) for x in c.a)
        if not isinstance(c, E) or c.op != 'fcmp' or c.x not in ('olt', 'ole', 'oeq'):
            return False
        (a, b), (u, v) = self.interval(c.a[0]), self.interval(c.a[1])
        if inv:
            return c.x == 'olt' and b < u or c.x == 'ole' and b <= u
        if c.x == 'oeq':
            return b < u or v < a
        return a > v or c.x == 'olt' and a >= v

    def refuted(self, cs):
        """interval bisection of the input ranges: 'unsat' if the conjunction cs fails on every box, 'sat' if it holds at a point, else None"""
        if self.o.mode == 'ieee':
            return None
        vs, names = {}, {}
        for n in walk(cs):
            if n.op == 'uf' or n.op == 'var' and (n.s != 'f' or n.x not in self.inputs):
                return None
            if n.op == 'var':
                i = self.inputs[n.x]
                if i['var'] is not n or i.get('lo') is None or i.get('hi') is None:
                    return None
                vs[n.id] = (float(i['lo']), float(i['hi']))
                names[n.id] = n.x
        if not vs or len(vs) > 3:
            return None
        full = {i: v[1] - v[0] or 1.0 for i, v in vs.items()}
        save = self.ivals
        work = [vs]
        try:
            for _ in range(self.o.icp):
                if not work:
                    return 'unsat'
                b = work.pop(0)
                self.boxed += 1
                self.ivals = dict(b)
                if any(self.never(c) for c in cs):
                    continue
                self.ivals = {i: ((v[0] + v[1]) / 2,) * 2 for i, v in b.items()}
                if all(self.never(b_not(c)) for c in cs):
                    self.point = {names[i]: v[0] for i, v in self.ivals.items() if i in names}
                    return 'sat'
                i = max(b, key=lambda i: (b[i][1] - b[i][0]) / full[i])
                lo, hi = b[i]
                mid = math.sqrt(lo * hi) if lo > 0 and hi > 4 * lo else (lo + hi) / 2
                work += [{**b, i: (lo, mid)}, {**b, i: (mid, hi)}]
        finally:
            self.ivals = save
        return None if work else 'unsat'

    def abstract(self, e):
        for n in walk([e]):
            if n.id in self.abstracted:
                continue
            if n.op in ('call', 'uf'):
                self.interval(n)
                r = var('~%d' % n.id, 'f')
            elif n.a and any(isinstance(x, E) for x in n.a):
                a = tuple(self.abstracted[x.id] if isinstance(x, E) else x for x in n.a)
                r = n if a == n.a else mk(n.op, n.s, a, n.x)
            else:
                r = n
            self.abstracted[n.id] = r
        return self.abstracted[e.id]

    def candidate(self, st, q, label, kind, m):
        nv = sum(1 for v in self.viol if v['label'] == label)
        if nv >= self.o.max_viol:
            return
        # full model over the whole path, preferred values first
        models = []
        base = list(st.pc) + q + self.gaxioms
        prefs = []
        for n, i in self.inputs.items():
            if i['kind'] == 'f' and i.get('pref') is not None and n in self.path_inputs(st, q):
                p = i['pref']
                v = i['var']
                lo, hi = min(p * 0.5, p * 2), max(p * 0.5, p * 2)
                prefs.append(b_and(fcmp('oge', v, lo), fcmp('ole', v, hi)))
        tries = []
        if prefs:
            tries.append((base + prefs, 10.0))
        tries.append((base, self.o.check_timeout))
        got = False
        for cs, to in tries:
            s, mm = self.be.check(cs, to)
            if s == 'sat':
                models.append(mm)
        if not models:
            s2 = self.be.check(base, self.o.check_timeout, want_model=False)[0]
            if s2 == 'unsat':
                return      # the sliced query was satisfiable but the path is not
            if m is not None:
                models.append(m)
            else:
                self.inconclusive.append((label, 'no model', None))
                return
        # further diversified models
        v = {'label': label, 'kind': kind, 'models': [self.concretize(st, mm) for mm in models], 'pc': len(st.pc)}
        if self.on_violation is not None:
            ok = self.on_violation(v)
            if ok is None:
                # not reproduced: try more models, pushing every free double input apart
                extra = self.more_models(st, base, models)
                v['models'] = [self.concretize(st, mm) for mm in extra]
                ok = self.on_violation(v) if extra else None
            if ok is None and self.witnesses(st, q, label, kind, self.labels[label]):
                return
            if ok is None:
                self.inconclusive.append((label, 'counterexample not reproduced by the compiled code', v['models'][:1]))
                return
            v['replay'] = ok
        self.viol.append(v)

    def witnesses(self, st, q, label, kind, ent):
        """the solver gave no usable counterexample: run inputs that reach the assertion in the compiled code"""
        ent['tried'] = ent.get('tried', 0) + 1
        if self.on_violation is None or ent['tried'] > 4:
            return False
        base = list(st.pc) + self.gaxioms
        near = []
        for n, i in self.inputs.items():
            if i['kind'] == 'f' and i.get('pref') is not None and n in self.path_inputs(st, []):
                lo, hi = sorted((i['pref'] * 0.5, i['pref'] * 2))
                near.append(b_and(fcmp('oge', i['var'], lo), fcmp('ole', i['var'], hi)))
        models = [m for s, m in (self.be.check(base + near, 5.0), self.be.check(base, 5.0)) if s == 'sat']
        if models:
            models += self.more_models(st, base, models, 4) + self.extremes(st, base, models[0])
        if not models:
            return False
        v = {'label': label, 'kind': kind, 'models': [self.concretize(st, m) for m in models], 'pc': len(st.pc)}
        ok = self.on_violation(v)
        if ok is None:
            # the counterexample search with all inputs but one fixed
            v['models'] = [self.concretize(st, m) for m in self.one_free(st, base + q, models[0])]
            ok = self.on_violation(v) if v['models'] else None
        if ok is None:
            return False
        v['replay'] = ok
        self.viol.append(v)
        return True

    def extremes(self, st, base, m):
        """models with one input close to an end of its range, the others as in m where possible"""
        names = [n for n, i in self.inputs.items() if i['kind'] == 'f' and n in m and n in self.path_inputs(st, [])]
        fix = {n: fcmp('oeq', self.inputs[n]['var'], m[n]) for n in names}
        out = []
        for n in names:
            lo, hi, v = self.inputs[n].get('lo'), self.inputs[n].get('hi'), self.inputs[n]['var']
            if lo is None or hi is None or not hi > lo:
                continue
            r = (hi / lo) ** 0.2 if lo > 0 and hi / lo > 100 else 0
            a, b = (lo * r, hi / r) if r else (lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo))
            for c in (fcmp('ole', v, a), fcmp('oge', v, b)):
                for rest in ([x for k, x in fix.items() if k != n], []):
                    s, mm = self.be.check(base + [c] + rest, 3.0)
                    if s == 'sat':
                        out.append(mm)
                        break
        return out

    def one_free(self, st, cs, m, to=3.0):
        ev = Evaluator(m)
        names = [n for n, i in self.inputs.items() if i['kind'] == 'f' and n in m and n in self.path_inputs(st, [])]
        fix = {n: fcmp('oeq', self.inputs[n]['var'], m[n]) for n in names}
        ufs = []
        for name, args, node in st.ufs:
            try:
                ufs.append(fcmp('oeq', node, ev.val(node)))
            except Exception:
                pass
        out = []
        for n in names:
            s, mm = self.be.check(cs + [c for k, c in fix.items() if k != n] + ufs, to)
            if s == 'sat':
                out.append(mm)
        return out

    def path_inputs(self, st, q):
        vs = set()
        for c in list(st.pc) + q:
            if isinstance(c, E):
                vs |= self.vars_of(c)
        return {n for n, i in self.inputs.items() if i['var'].id in vs}

    def more_models(self, st, base, models, k=6):
        out = []
        import random
        rnd = random.Random(self.be.seed)
        names = [n for n, i in self.inputs.items() if i['kind'] == 'f' and n in self.path_inputs(st, [])]
        for _ in range(k):
            cs = list(base)
            for n in names:
                i = self.inputs[n]
                lo, hi = i.get('lo'), i.get('hi')
                if lo is None or hi is None:
                    continue
                if rnd.random() < 0.6:
                    if lo > 0 and hi / lo > 100:
                        c = math.exp(rnd.uniform(math.log(lo), math.log(hi)))
                        w = c
                        a, b = c / 1.5, c * 1.5
                    else:
                        c = rnd.uniform(lo, hi)
                        w = (hi - lo) * 0.1
                        a, b = c - w, c + w
                    cs.append(fcmp('oge', i['var'], a))
                    cs.append(fcmp('ole', i['var'], b))
            s, mm = self.be.check(cs, 5.0)
            if s == 'sat':
                out.append(mm)
        return out

    def concretize(self, st, m):
        """model -> replayable description"""
        vals = {}
        for n, i in self.inputs.items():
            if n in m:
                vals[n] = m[n]
            else:
                vals[n] = i.get('pref') if i['kind'] == 'f' and i.get('pref') is not None else (i.get('lo') or 0)
        ev = Evaluator(m)
        ufs = []
        for name, args, node in st.ufs:
            try:
                ufs.append((name, [ev.val(a) for a in args], ev.val(node)))
            except Exception:
                pass
        return {'inputs': vals, 'choices': {k: v for k, v in st.choices.items() if isinstance(k, str)}, 'ufs': ufs}

    def check_deadline(self):
        if self.o.deadline and time.time() > self.o.deadline:
            raise Bound('time budget exhausted')
        if self.stop is not None and self.stop():
            raise Bound('stopped after a violation was confirmed')

    # ------------------------------------------------------------ load/store
    def split_ptr(self, p):
        """symbolic pointer -> (constant part with object id, symbolic offset)"""
        terms = []
        c = 0
        work = [p]
        while work:
            x = work.pop()
            if isinstance(x, E) and x.op == 'bv' and x.x == 'add':
                work.extend(x.a)
            elif isinstance(x, E):
                terms.append(x)
            else:
                c = (c + x) & M64
        return c, terms

    def addr(self, st, p, size, what):
        """concrete (object id, offset) for a concrete pointer, with access checks"""
        oid = p >> 32
        off = p & 0xffffffff
        o = st.mem.get(oid)
        if o is None or not o.alive or off + size > o.size:
            nm = 'null' if p < 4096 else (o.name if o else '?')
            if o is not None and not o.alive:
                lab = 'use after free/return'
            else:
                lab = 'out-of-bounds access'
            self.require(st, 0, 'mem: %s' % lab, 'ub')
        return oid, off

    def load(self, st, p, t):
        if isinstance(p, E):
            return self.sym_load(st, p, t)
        t = self.T.resolve(t)
        k = t[0]
        if k == 'struct' or k == 'arr' or k == 'vec':
            return self.load_agg(st, p, t)
        sz = self.T.size(t)
        oid = p >> 32
        off = p & 0xffffffff
        o = st.mem.get(oid)
        if o is None or not o.alive or off + sz > o.size:
            self.addr(st, p, sz, 'load')
        if o.lazy is not None:
            self.force(o)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
        else:
            v = self.load_bytes(st, o, off, sz, t)
        return self.conv(v, t, sz)

    def conv(self, v, t, sz):
        k = t[0]
        if k == 'double':
            if isinstance(v, float):
                return v
            if isinstance(v, E):
                if v.s == 'f':
                    return v
                if v.op == 'bits':
                    return v.a[0]
                if v.op == 'ite':
                    return ite(v.a[0], self.conv(v.a[1], t, sz), self.conv(v.a[2], t, sz), 'f')
                return mk('frombits', 'f', (v,))
            return bits2f(v)
        if k == 'float':
            if isinstance(v, float):
                return v
            if isinstance(v, E):
                if v.s == 'f':
                    return v
                if v.op == 'bits':
                    return v.a[0]
                if v.op == 'ite':
                    return ite(v.a[0], self.conv(v.a[1], t, sz), self.conv(v.a[2], t, sz), 'f')
                return mk('frombits', 'f', (v,))
            return bits2f32(v)
        # integer / pointer
        if isinstance(v, float):
            return f2bits(v) if sz == 8 else f32bits(v)
        if isinstance(v, E):
            if v.s == 'f':
                if v.op == 'frombits':
                    return v.a[0]
                return mk('bits', sz * 8, (v,))
            if k == 'i' and t[1] == 1:
                return trunc(v, 8, 1) if v.s != 'b' else v
            return v
        if k == 'i' and t[1] == 1:
            return v & 1
        return v

    def load_agg(self, st, p, t):
        if t[0] == 'struct':
            offs, _ = self.T.offsets(t)
            return tuple(self.load(st, p + d, x) for d, x in zip(offs, t[1]))
        es = self.T.size(t[2])
        return tuple(self.load(st, p + i * es, t[2]) for i in range(t[1]))

    def cell_at(self, o, b):
        """cell covering byte b: (off,size,val) or None"""
        for d in range(o.maxc):
            c = o.cells.get(b - d)
            if c is not None:
                if c[0] > d:
                    return b - d, c[0], c[1]
                return None
        return None

    def asbits(self, v, sz):
        if isinstance(v, float):
            return f2bits(v) if sz == 8 else f32bits(v)
        if isinstance(v, E) and v.s == 'f':
            return mk('bits', sz * 8, (v,))
        if isinstance(v, E) and v.s == 'b':
            return zext(v, 1, sz * 8)
        return v

    def load_bytes(self, st, o, off, sz, t):
        parts = []      # (value,width) low to high
        b = off
        end = off + sz
        und = False
        while b < end:
            c = self.cell_at(o, b)
            if c is None:
                # zero fill or undefined
                z = any(lo <= b < hi for lo, hi in o.zero)
                if z:
                    parts.append((0, 8))
                else:
                    und = True
                    self.fresh += 1
                    parts.append((var('__undef%d' % self.fresh, 8), 8))
                b += 1
            else:
                co, cs, cv = c
                n = min(co + cs, end) - b
                parts.append((extract(self.asbits(cv, cs), (b - co) * 8, n * 8, cs * 8), n * 8))
                b += n
        if und and all(isinstance(v, E) and v.op == 'var' for v, w in parts):
            self.undef_reads += 1
            v = self.undef(t)
            o2 = self.wobj_of(st, o)
            self.put_raw(o2, off, sz, v)
            return v
        r, w = parts[0]
        for v, n in parts[1:]:
            r = concat(v, n, r, w)
            w += n
        return r

    def wobj_of(self, st, o):
        if o.own is st.token:
            return o
        for k, v in st.mem.items():
            if v is o:
                return self.wobj(st, k)
        raise EngineError('object')

    def put_raw(self, o, off, sz, v):
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            self.clear(o, off, sz)
        o.cells[off] = (sz, v)
        if sz > o.maxc:
            o.maxc = sz

    def clear(self, o, off, sz):
        cells = o.cells
        if not cells:
            return
        # cells beginning before
        for d in range(1, o.maxc):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    co = off - d
                    v = self.asbits(c[1], c[0])
                    del cells[co]
                    for i in range(c[0]):
                        if co + i < off or co + i >= off + sz:
                            cells[co + i] = (1, extract(v, i * 8, 8, c[0] * 8))
                break
        if sz > len(cells) * 2:
            for k in [k for k in cells if off <= k < off + sz]:
                self._clr1(cells, k, off, sz)
        else:
            for i in range(sz):
                if off + i in cells:
                    self._clr1(cells, off + i, off, sz)

    def _clr1(self, cells, k, off, sz):
        c = cells.pop(k)
        if k + c[0] > off + sz:
            v = self.asbits(c[1], c[0])
            for i in range(c[0]):
                if k + i >= off + sz:
                    cells[k + i] = (1, extract(v, i * 8, 8, c[0] * 8))

    def store(self, st, p, t, v):
        t = self.T.resolve(t)
        k = t[0]
        if isinstance(p, E):
            return self.sym_store(st, p, t, v)
        if k == 'struct':
            offs, _ = self.T.offsets(t)
            for d, x, y in zip(offs, t[1], v):
                self.store(st, p + d, x, y)
            return
        if k == 'arr' or k == 'vec':
            es = self.T.size(t[2])
            for i, y in enumerate(v):
                self.store(st, p + i * es, t[2], y)
            return
        sz = self.T.size(t)
        oid = p >> 32
        off = p & 0xffffffff
        o = st.mem.get(oid)
        if o is None or not o.alive or off + sz > o.size or o.const:
            self.addr(st, p, sz, 'store')
            if o.const:
                self.require(st, 0, 'mem: write to constant', 'ub')
        o = self.wobj(st, oid)
        if k == 'i' and t[1] == 1:
            v = zext(v, 1, 8)
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            self.clear(o, off, sz)
        o.cells[off] = (sz, v)
        if sz > o.maxc:
            o.maxc = sz

    def resolve_sym(self, st, p, sz, what):
        """symbolic pointer without top-level ite -> (object id, base offset, symbolic offset expr, stride candidates)"""
        c, terms = self.split_ptr(p)
        # an ite over pointers hidden in a term
        for t in terms:
            if t.op == 'ite':
                # lift
                rest = [x for x in terms if x is not t]
                def mkp(b):
                    r = c
                    e = None
                    for x in rest:
                        e = x if e is None else bv_bin('add', 64, e, x)
                    q = bv_bin('add', 64, b, c) if isinstance(b, E) else (b + c) & M64
                    if e is not None:
                        q = bv_bin('add', 64, q, e) if isinstance(q, E) else bv_bin('add', 64, e, q)
                    return q
                return ('ite', t.a[0], mkp(t.a[1]), mkp(t.a[2]))
        oid = c >> 32
        base = c & 0xffffffff
        o = st.mem.get(oid)
        if o is None:
            # maybe base borrowed by negative constant: try next id
            o = st.mem.get(oid + 1)
            if o is not None and base > 0x80000000:
                oid += 1
                base -= 1 << 32
            else:
                self.require(st, 0, 'mem: wild pointer access', 'ub')
        elif base > 0x80000000 and (oid + 1) in st.mem:
            oid += 1
            base -= 1 << 32
            o = st.mem[oid]
        symoff = None
        for x in terms:
            symoff = x if symoff is None else bv_bin('add', 64, symoff, x)
        if not o.alive:
            self.require(st, 0, 'mem: use after free/return', 'ub')
        tot = bv_bin('add', 64, symoff, base & M64)
        inb = b_and(icmp('sge', 64, tot, 0), icmp('sle', 64, tot, (o.size - sz) & M64)) if o.size >= sz else 0
        self.require(st, inb, 'mem: out-of-bounds access', 'ub')
        return ('off', oid, base, symoff, tot, o)

    def offsets_for(self, st, tot, symoff, base, o, sz):
        """enumerate possible concrete byte offsets with the condition for each"""
        # stride: all symbolic terms multiplied by constants
        def stride(x):
            if isinstance(x, E):
                if x.op == 'bv' and x.x == 'mul' and not isinstance(x.a[1], E):
                    return sgn(x.a[1], 64)
                if x.op == 'bv' and x.x == 'shl' and not isinstance(x.a[1], E):
                    return 1 << x.a[1]
                if x.op == 'bv' and x.x == 'add':
                    return math.gcd(stride(x.a[0]), stride(x.a[1]))
                return 1
            return sgn(x, 64) if x else 0
        s = abs(stride(symoff)) or 1
        cands = [k for k in range(base % s, o.size - sz + 1, s)] if o.size >= sz else []
        # prune by solver-computed min and max
        lo, hi = self.minmax(st, tot, cands)
        return [k for k in cands if lo <= k <= hi]

    def minmax(self, st, tot, cands):
        if not cands:
            return 0, -1
        # binary search over candidates
        def feas(c):
            return self.feasible(st, c)
        i, j = 0, len(cands) - 1
        while i < j:
            m = (i + j) // 2
            if feas(icmp('sle', 64, tot, cands[m])):
                j = m
            else:
                i = m + 1
        lo = cands[i]
        i2, j = i, len(cands) - 1
        while i2 < j:
            m = (i2 + j + 1) // 2
            if feas(icmp('sge', 64, tot, cands[m])):
                i2 = m
            else:
                j = m - 1
        return lo, cands[i2]

    def sym_load(self, st, p, t):
        t = self.T.resolve(t)
        if p.op == 'ite':
            c = p.a[0]
            return self.merge_val(c, lambda: self.load(st, p.a[1], t), lambda: self.load(st, p.a[2], t), t, st)
        if t[0] == 'struct':
            offs, _ = self.T.offsets(t)
            return tuple(self.load(st, bv_bin('add', 64, p, d), x) for d, x in zip(offs, t[1]))
        sz = self.T.size(t)
        r = self.resolve_sym(st, p, sz, 'load')
        if r[0] == 'ite':
            return self.merge_val(r[1], lambda: self.load(st, r[2], t), lambda: self.load(st, r[3], t), t, st)
        _, oid, base, symoff, tot, o = r
        offs = self.offsets_for(st, tot, symoff, base, o, sz)
        if not offs:
            raise PathEnd()
        if len(offs) > 40000:
            raise EngineError('symbolic index over %d cells' % len(offs))
        vals = [self.load(st, (oid << 32) + k, t) for k in offs]
        # balanced decision tree with equal-run compression
        so = self.sort(t)
        runs = []
        for k, v in zip(offs, vals):
            if runs and same(runs[-1][1], v):
                runs[-1] = (k, v)
            else:
                runs.append((k, v))

        def tree(i, j):
            if i == j:
                return runs[i][1]
            m = (i + j) // 2
            return ite(icmp('sle', 64, tot, runs[m][0]), tree(i, m), tree(m + 1, j), so)
        return tree(0, len(runs) - 1)

    def merge_val(self, c, fa, fb, t, st):
        # access checks of each side only matter where that side is selected
        saved = st.pc
        st.pc = list(saved)
        a = b = None
        try:
            if self.feasible(st, c):
                st.pc.append(c)
                a = fa()
        except PathEnd:
            a = None
        st.pc = list(saved)
        try:
            if self.feasible(st, b_not(c)):
                st.pc.append(b_not(c))
                b = fb()
        except PathEnd:
            b = None
        st.pc = saved
        if a is None and b is None:
            raise PathEnd()
        if a is None:
            self.add_pc(st, b_not(c))
            return b
        if b is None:
            self.add_pc(st, c)
            return a
        return self.vite(c, a, b, t)

    def vite(self, c, a, b, t=None):
        if isinstance(a, tuple):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        s = self.sort(t) if t is not None else None
        if s is None:
            s = a.s if isinstance(a, E) else b.s if isinstance(b, E) else ('f' if isinstance(a, float) else 64)
        return ite(c, a, b, s)

    def sort(self, t):
        t = self.T.resolve(t)
        if t[0] in ('double', 'float'):
            return 'f'
        if t[0] == 'ptr':
            return 64
        if t[0] == 'i':
            return 'b' if t[1] == 1 else t[1]
        return None

    def sym_store(self, st, p, t, v):
        if p.op == 'ite':
            c = p.a[0]
            for cc, q in ((c, p.a[1]), (b_not(c), p.a[2])):
                if self.feasible(st, cc):
                    old = self.load(st, q, t)
                    self.store(st, q, t, self.vite(cc, v, old, t))
            return
        sz = self.T.size(t)
        r = self.resolve_sym(st, p, sz, 'store')
        if r[0] == 'ite':
            for cc, q in ((r[1], r[2]), (b_not(r[1]), r[3])):
                if self.feasible(st, cc):
                    old = self.load(st, q, t)
                    self.store(st, q, t, self.vite(cc, v, old, t))
            return
        _, oid, base, symoff, tot, o = r
        offs = self.offsets_for(st, tot, symoff, base, o, sz)
        if len(offs) > self.o.max_enum:
            raise EngineError('symbolic store over %d cells' % len(offs))
        for k in offs:
            q = (oid << 32) + k
            old = self.load(st, q, t)
            self.store(st, q, t, self.vite(icmp('eq', 64, tot, k), v, old, t))

    def memcpy(self, st, dst, src, n):
        if isinstance(n, E):
            n = self.concretize_int(st, n, 64)
        if n == 0:
            return
        if isinstance(dst, E) or isinstance(src, E):
            # copy word by word through symbolic accesses
            off = 0
            while off < n:
                w = 8 if n - off >= 8 else 1
                t = ('i', w * 8)
                v = self.load_any(st, self.padd(src, off, None), w)
                self.store(st, self.padd(dst, off, None), t, v)
                off += w
            return
        so, soff = self.addr(st, src, n, 'copy')
        do, doff = self.addr(st, dst, n, 'copy')
        s = st.mem[so]
        if s.lazy is not None:
            self.force(s)
        # collect source pieces
        pieces = []
        if n > 4 * len(s.cells):
            ks = sorted(k for k in s.cells if k < soff + n and k + s.cells[k][0] > soff)
        else:
            ks = [k for k in range(soff - s.maxc + 1, soff + n) if k in s.cells and k + s.cells[k][0] > soff]
        for k in ks:
            sz, v = s.cells[k]
            if k >= soff and k + sz <= soff + n:
                pieces.append((k - soff, sz, v))
            else:
                bv = self.asbits(v, sz)
                for i in range(sz):
                    if soff <= k + i < soff + n:
                        pieces.append((k + i - soff, 1, extract(bv, i * 8, 8, sz * 8)))
        zeros = [(max(lo, soff) - soff, min(hi, soff + n) - soff) for lo, hi in s.zero if lo < soff + n and hi > soff]
        d = self.wobj(st, do)
        self.clear(d, doff, n)
        self.unzero(d, doff, n)
        for lo, hi in zeros:
            if hi > lo:
                d.zero.append((doff + lo, doff + hi))
        for k, sz, v in pieces:
            d.cells[doff + k] = (sz, v)
            if sz > d.maxc:
                d.maxc = sz

    def unzero(self, d, off, n):
        if not d.zero:
            return
        nz = []
        for lo, hi in d.zero:
            if hi <= off or lo >= off + n:
                nz.append((lo, hi))
            else:
                if lo < off:
                    nz.append((lo, off))
                if hi > off + n:
                    nz.append((off + n, hi))
        d.zero = nz

    def load_any(self, st, p, w):
        return self.load(st, p, ('i', w * 8))

    def memset(self, st, p, v, n):
        if isinstance(n, E):
            n = self.concretize_int(st, n, 64)
        if n == 0:
            return
        oid, off = self.addr(st, p, n, 'memset')
        d = self.wobj(st, oid)
        self.clear(d, off, n)
        self.unzero(d, off, n)
        if v == 0:
            d.zero.append((off, off + n))
        else:
            for i in range(n):
                d.cells[off + i] = (1, v)

    def concretize_int(self, st, e, w):
        """fork-free concretisation: only if a single value is feasible"""
        s, m = self.be.check(self.slice(st.pc, [e]) + [icmp('eq', w, var('__c', w), e)], 10.0)
        if s != 'sat':
            raise EngineError('cannot concretise')
        v = m['__c']
        if self.feasible(st, icmp('ne', w, e, v)):
            raise ForkInt(e, w)
        return v

    # ------------------------------------------------------------ code preparation
    def code(self, fn):
        c = self.codes.get(fn.name)
        if c is None:
            c = {}
            for lab, ins in fn.blocks.items():
                phis = [i for i in ins if i.op == 'phi']
                rest = [i for i in ins if i.op != 'phi']
                c[lab] = (phis, rest)
            self.codes[fn.name] = c
        return c

    def ev(self, fr, op, t=None):
        k = op[0]
        if k == 'l':
            return fr.regs[op[1]]
        if k == 'c':
            v = op[1]
            return 0 if v is None else v
        return self.const(op, t)

    # ------------------------------------------------------------ running
    def initial(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.steps = 0
        st.token = object()
        st.wit = None
        st.choices = {}
        st.labels = set()
        st.obs = []
        st.nobj = 0
        st.ufs = []
        st.depth = 0
        self.init_globals(st)
        return st

    def push(self, st, name, args, res):
        fn = self.m.get(name)
        self.functions.add(name)
        fr = Frame()
        fr.fn = fn
        fr.regs = dict(zip(fn.params, args))
        fr.code = self.code(fn)
        fr.label = fn.entry
        fr.prev = None
        fr.ip = 0
        fr.res = res
        fr.allocas = []
        fr.visits = {}
        fr.depthmark = len(st.frames)
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Bound('call depth')

    def run_ctors(self, st):
        g = self.m.globals.get('@llvm.global_ctors')
        if not g:
            return st
        init = g[1]
        if init is None or init[0] != 'agg':
            return st
        fns = []
        for t, e in init[1]:
            pr = e[1][0][1][1]
            f = e[1][1][1]
            fns.append((pr, f[1]))
        for pr, f in sorted(fns, key=lambda x: x[0]):
            sts = self.run_fn(st, f, [])
            if len(sts) != 1:
                raise EngineError('constructor forked')
            st = sts[0]
        return st

    def run_fn(self, st, name, args):
        """run function to completion, return list of finished states (with return value in st.obs? no)"""
        base = len(st.frames)
        self.push(st, name, args, None)
        return self.explore(st, base)

    def explore(self, st, base):
        """explore until frame depth == base; returns finished states; each finished state carries its
        return value in st.wit"""
        done = []
        work = [st]
        while work:
            s = work.pop()
            try:
                r = self.run_state(s, base, work)
            except PathEnd:
                if base == 0 or True:
                    self.paths += 1
                continue
            if r:
                done.append(s)
                if len(done) + len(work) > self.o.max_paths:
                    raise Bound('path bound %d' % self.o.max_paths)
        return done

    def run_state(self, st, base, work):
        ops = self.ops
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.code[fr.label][1][fr.ip]
            n += 1
            if n & 0xfff == 0:
                self.check_deadline()
                self.steps += 0x1000
                st.steps += 0x1000
                if st.steps > self.o.max_steps:
                    raise Bound('instruction bound %d' % self.o.max_steps)
            try:
                r = ops[ins.op](st, fr, ins, work, base)
            except ForkInt as f:
                self.fork_int(st, f.e, f.w, work)
                continue
            except ForkFloat as f:
                self.fork_float(st, f.e, f.w, work)
                continue
            if r is not None:
                self.steps += n & 0xfff
                return True

    def fork_int(self, st, e, w, work):
        """enumerate feasible values of e; current state continues with the first"""
        vals = []
        cs = self.slice(st.pc, [e])
        c0 = var('__c', w)
        cs = cs + [icmp('eq', w, c0, e)]
        while True:
            s, m = self.be.check(cs, 10.0)
            if s == 'unsat':
                break
            if s != 'sat':
                raise Bound('cannot enumerate integer')
            v = m['__c']
            vals.append(v)
            cs = cs + [icmp('ne', w, c0, v)]
            if len(vals) > self.o.max_enum:
                raise Bound('integer enumeration bound')
        if not vals:
            raise PathEnd()
        self.split(st, [icmp('eq', w, e, v) for v in sorted(vals)], work)

    def fork_float(self, st, v, w, work):
        """float -> int conversion: one path per feasible integer value (truncation toward zero)"""
        lim = float(1 << (w - 1))
        self.require(st, b_and(fcmp('ogt', v, -lim - 1.0), fcmp('olt', v, lim)), 'float to integer conversion out of range', 'ub')
        sl = self.slice(st.pc, [v])
        vals = []
        conds = []
        extra = []
        while True:
            r = var('__r', 'f')
            s, m = self.be.check(sl + extra + [fcmp('oeq', r, v)] + self.gaxioms, 20.0)
            if s == 'unsat':
                break
            if s != 'sat':
                raise Bound('cannot enumerate conversion')
            k = math.trunc(m['__r'])
            # guard against rounding of the model value at an integer boundary
            ok = None
            for kk in (k, k - 1, k + 1):
                if kk in vals:
                    continue
                c = self.trunc_is(v, kk)
                if kk == k or self.feasible(st, c):
                    ok = kk
                    break
            if ok is None:
                raise Bound('cannot enumerate conversion')
            c = self.trunc_is(v, ok)
            vals.append(ok)
            conds.append(c)
            extra.append(b_not(c))
            if len(vals) > self.o.max_enum:
                raise Bound('conversion enumeration bound %d' % self.o.max_enum)
        if not vals:
            raise PathEnd()
        self.forks += len(vals) - 1
        for k, c in list(zip(vals, conds))[1:]:
            s2 = st.fork()
            self.add_pc(s2, c)
            s2.choices[('fptoi', v.id)] = k
            work.append(s2)
        self.add_pc(st, conds[0])
        st.choices[('fptoi', v.id)] = vals[0]

    def trunc_is(self, v, k):
        if k > 0:
            return b_and(fcmp('oge', v, float(k)), fcmp('olt', v, float(k + 1)))
        if k == 0:
            return b_and(fcmp('ogt', v, -1.0), fcmp('olt', v, 1.0))
        return b_and(fcmp('ogt', v, float(k - 1)), fcmp('ole', v, float(k)))

    def split(self, st, conds, work):
        """fork st on an exhaustive list of conditions; st takes the first"""
        self.forks += len(conds) - 1
        others = []
        for c in conds[1:]:
            s2 = st.fork()
            self.add_pc(s2, c)
            others.append(s2)
        work.extend(reversed(others))
        self.add_pc(st, conds[0])

    def jump(self, st, fr, label):
        prev = fr.label
        code = fr.code[label]
        if code[0]:
            vals = []
            for ph in code[0]:
                op = ph.a[prev]
                vals.append((ph.res, fr.regs[op[1]] if op[0] == 'l' else self.ev(fr, op, ph.ty)))
            for r, v in vals:
                fr.regs[r] = v
        fr.prev = prev
        fr.label = label
        fr.ip = 0

    def setup_ops(self):
        o = {}
        for b in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            o[b] = self.op_bin
        for b in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            o[b] = self.op_fbin
        for n in ('load', 'store', 'gep', 'call', 'br', 'cbr', 'ret', 'icmp', 'fcmp', 'select', 'alloca', 'cast', 'fneg', 'freeze',
                  'unreachable', 'switch', 'extractvalue', 'insertvalue'):
            o[n] = getattr(self, 'op_' + n)
        self.ops = o

    def op_bin(self, st, fr, ins, work, base):
        w = ins.ty[1] if ins.ty[0] == 'i' else 64
        a = self.ev(fr, ins.a[0], ins.ty)
        b = self.ev(fr, ins.a[1], ins.ty)
        op = ins.op
        if ins.ty[0] == 'vec':
            ew = ins.ty[2][1]
            fr.regs[ins.res] = tuple(bv_bin(op, ew, x, y) for x, y in zip(a, b))
            fr.ip += 1
            return
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.require(st, icmp('ne', w, b, 0), 'integer division by zero', 'ub') if (isinstance(b, E) or b == 0) else None
        fr.regs[ins.res] = bv_bin(op, w, a, b)
        fr.ip += 1

    def no_overflow(self, op, w, a, b):
        if w == 64:
            return None     # pointer differences / size arithmetic
        W = w * 2 if op == 'mul' else w + 1
        xa = sext(a, w, W)
        xb = sext(b, w, W)
        r = bv_bin(op, W, xa, xb)
        return b_and(icmp('sge', W, r, msk(-(1 << (w - 1)), W)), icmp('sle', W, r, (1 << (w - 1)) - 1))

    def op_fbin(self, st, fr, ins, work, base):
        a = self.ev(fr, ins.a[0], ins.ty)
        b = self.ev(fr, ins.a[1], ins.ty)
        if ins.ty[0] == 'vec':
            fr.regs[ins.res] = tuple(fbin(ins.op, x, y) for x, y in zip(a, b))
        elif ins.ty[0] == 'float':
            fr.regs[ins.res] = f32(fbin(ins.op, a, b))
        else:
            fr.regs[ins.res] = self.fop(st, ins.op, a, b)
        fr.ip += 1

    def fop(self, st, op, a, b):
        return fbin(op, a, b)

    def op_fneg(self, st, fr, ins, work, base):
        fr.regs[ins.res] = fneg(self.ev(fr, ins.a[0], ins.ty))
        fr.ip += 1

    def op_freeze(self, st, fr, ins, work, base):
        fr.regs[ins.res] = self.ev(fr, ins.a[0], ins.ty)
        fr.ip += 1

    def op_load(self, st, fr, ins, work, base):
        fr.regs[ins.res] = self.load(st, self.ev(fr, ins.a[0]), ins.ty)
        fr.ip += 1

    def op_store(self, st, fr, ins, work, base):
        self.store(st, self.ev(fr, ins.a[1]), ins.ty, self.ev(fr, ins.a[0], ins.ty))
        fr.ip += 1

    def op_gep(self, st, fr, ins, work, base):
        fr.regs[ins.res] = self.gep(ins.ty, [(t, self.ev(fr, o, t)) for t, o in ins.a])
        fr.ip += 1

    def op_br(self, st, fr, ins, work, base):
        self.jump(st, fr, ins.a if isinstance(ins.a, str) else ins.a[0])

    def op_cbr(self, st, fr, ins, work, base):
        c = self.ev(fr, ins.a[0], ('i', 1))
        l1, l2 = ins.a[1], ins.a[2]
        if not isinstance(c, E):
            self.jump(st, fr, l1 if c else l2)
            return
        v = fr.visits.get(fr.label, 0) + 1
        fr.visits[fr.label] = v
        if v > self.o.max_visits:
            if self.o.cut_loops:
                self.cut += 1
                raise PathEnd()
            raise Bound('loop bound %d in %s' % (self.o.max_visits, fr.fn.name))
        self.check_deadline()
        nc = b_not(c)
        # if-conversion of small pure diamonds keeps the path count down
        if self.try_ifconv(st, fr, ins, c):
            return
        ta = self.feasible(st, c)
        tb = self.feasible(st, nc) if ta else True
        if ta and tb:
            self.forks += 1
            s2 = st.fork()
            s2.pc.append(nc) if nc not in s2.pc else None
            f2 = s2.frames[-1]
            self.jump(s2, f2, l2)
            work.append(s2)
            if len(work) > self.o.max_paths:
                raise Bound('path bound %d' % self.o.max_paths)
            self.add_pc(st, c)
            self.jump(st, fr, l1)
        elif ta:
            self.add_pc(st, c)
            self.jump(st, fr, l1)
        elif tb:
            self.add_pc(st, nc)
            self.jump(st, fr, l2)
        else:
            raise PathEnd()

    def try_ifconv(self, st, fr, ins, c):
        return False

    def op_switch(self, st, fr, ins, work, base):
        v, d, cases = ins.a
        t = ins.ty
        w = t[1] if t and t[0] == 'i' else 32
        x = self.ev(fr, v, t)
        if not isinstance(x, E):
            for cv, l in cases:
                if (cv & ((1 << w) - 1)) == x:
                    self.jump(st, fr, l)
                    return
            self.jump(st, fr, d)
            return
        byl = {}
        for cv, l in cases:
            byl.setdefault(l, []).append(icmp('eq', w, x, cv & ((1 << w) - 1)))
        opts = [(disj(cs), l) for l, cs in byl.items()]
        opts.append((conj([b_not(c) for c, _ in opts]), d))
        opts = [(c, l) for c, l in opts if self.feasible(st, c)]
        if not opts:
            raise PathEnd()
        self.forks += len(opts) - 1
        for c, l in opts[1:]:
            s2 = st.fork()
            self.add_pc(s2, c)
            self.jump(s2, s2.frames[-1], l)
            work.append(s2)
        self.add_pc(st, opts[0][0])
        self.jump(st, fr, opts[0][1])

    def op_unreachable(self, st, fr, ins, work, base):
        self.require(st, 0, 'abort/unreachable reached', 'ub')
        raise PathEnd()

    def op_ret(self, st, fr, ins, work, base):
        v = None
        if ins.a is not None:
            a = ins.a
            if isinstance(a, list) or (isinstance(a, tuple) and a and isinstance(a[0], tuple)):
                a = a[0]
            v = self.ev(fr, a, ins.ty)
        for oid in fr.allocas:
            del st.mem[oid]
        st.frames.pop()
        if len(st.frames) <= base:
            st.wit = (fr.res, v, self.sort(fr.fn.rtype) if v is not None else None)
            return True
        cf = st.frames[-1]
        if fr.res is not None:
            cf.regs[fr.res] = v
        cf.ip += 1

    def op_icmp(self, st, fr, ins, work, base):
        a = self.ev(fr, ins.a[0], ins.ty)
        b = self.ev(fr, ins.a[1], ins.ty)
        w = ins.ty[1] if ins.ty[0] == 'i' else 64
        if w == 64 and isinstance(a, E) and isinstance(b, E) is False and a.op == 'ite':
            r = ite(a.a[0], icmp(ins.x, w, a.a[1], b), icmp(ins.x, w, a.a[2], b), 'b')
        else:
            r = icmp(ins.x, w, a, b)
        fr.regs[ins.res] = r
        fr.ip += 1

    def op_fcmp(self, st, fr, ins, work, base):
        fr.regs[ins.res] = fcmp(ins.x, self.ev(fr, ins.a[0], ins.ty), self.ev(fr, ins.a[1], ins.ty))
        fr.ip += 1

    def op_select(self, st, fr, ins, work, base):
        c = self.ev(fr, ins.a[0], ('i', 1))
        a = self.ev(fr, ins.a[1], ins.ty)
        b = self.ev(fr, ins.a[2], ins.ty)
        if self.o.split_select and isinstance(c, E) and ins.ty in (('double',), ('ptr',)):
            nc = b_not(c)
            ta = self.feasible(st, c)
            tb = self.feasible(st, nc) if ta else True
            if not ta and not tb:
                raise PathEnd()
            if ta and tb:
                self.forks += 1
                s2 = st.fork()
                self.add_pc(s2, nc)
                s2.frames[-1].regs[ins.res] = b
                s2.frames[-1].ip += 1
                work.append(s2)
            self.add_pc(st, c if ta else nc)
            c = 1 if ta else 0
        fr.regs[ins.res] = (a if c else b) if not isinstance(c, E) else self.vite(c, a, b, ins.ty)
        fr.ip += 1

    def op_alloca(self, st, fr, ins, work, base):
        n = self.ev(fr, ins.a) if ins.a is not None else 1
        if isinstance(n, E):
            raise EngineError('symbolic alloca')
        p = self.new_obj(st, self.T.size(ins.ty) * (n or 1), fr.fn.name + ':' + str(ins.res), 'stack')
        fr.allocas.append(p >> 32)
        fr.regs[ins.res] = p
        fr.ip += 1

    def op_extractvalue(self, st, fr, ins, work, base):
        v = self.ev(fr, ins.a[0])
        idx = ins.a[1]
        for i in (idx if isinstance(idx, (list, tuple)) else [idx]):
            v = v[i]
        fr.regs[ins.res] = v
        fr.ip += 1

    def op_insertvalue(self, st, fr, ins, work, base):
        v = self.ev(fr, ins.a[0], ins.ty)
        x = self.ev(fr, ins.a[1])
        idx = ins.a[2]
        idx = list(idx) if isinstance(idx, (list, tuple)) else [idx]

        def rec(v, idx):
            l = list(v)
            l[idx[0]] = x if len(idx) == 1 else rec(l[idx[0]], idx[1:])
            return tuple(l)
        fr.regs[ins.res] = rec(v, idx)
        fr.ip += 1

    def op_cast(self, st, fr, ins, work, base):
        v = self.ev(fr, ins.a[0], ins.a[1])
        k = ins.x
        if k in ('fptosi', 'fptoui') and isinstance(v, E):
            fr.regs[ins.res] = self.fptoi(st, v, ins.ty[1], k)
        else:
            if k in ('fptosi', 'fptoui'):
                w = ins.ty[1]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == 'fptosi' else (0, (1 << w) - 1)
                if v != v or math.isinf(v) or not lo <= math.trunc(v) <= hi:
                    self.require(st, 0, 'float to integer conversion out of range', 'ub')
            fr.regs[ins.res] = self.cast(k, v, ins.a[1], ins.ty)
        fr.ip += 1

    def cast(self, k, v, t1, t2):
        if k in ('bitcast', 'ptrtoint', 'inttoptr'):
            if k == 'bitcast':
                if t1[0] in ('double', 'float') and t2[0] == 'i':
                    return self.conv(v, t2, self.T.size(t2))
                if t2[0] in ('double', 'float') and t1[0] == 'i':
                    return self.conv(v, t2, self.T.size(t2))
            return v
        if k == 'zext':
            return zext(v, t1[1], t2[1])
        if k == 'sext':
            return sext(v, t1[1], t2[1])
        if k == 'trunc':
            return trunc(v, t1[1], t2[1])
        if k == 'sitofp' or k == 'uitofp':
            w = t1[1]
            if isinstance(v, E):
                if w == 1:
                    return ite(v, 1.0 if k == 'uitofp' else -1.0, 0.0, 'f')
                # integer that came from a table of constants / small ite: push through
                if v.op == 'ite':
                    return ite(v.a[0], self.cast(k, v.a[1], t1, t2), self.cast(k, v.a[2], t1, t2), 'f')
                if v.op in ('sext',) and k == 'sitofp':
                    return self.cast(k, v.a[0], ('i', v.x), t2)
                if v.op == 'zext':
                    return self.cast('uitofp', v.a[0], ('i', v.x), t2)
                if v.op == 'b2bv':
                    return ite(v.a[0], 1.0, 0.0, 'f')
                return mk('si2f' if k == 'sitofp' else 'ui2f', 'f', (v,), w)
            r = float(sgn(v, w) if k == 'sitofp' else v)
            return f32(r) if t2[0] == 'float' else r
        if k == 'fptrunc':
            return f32(v)
        if k == 'fpext':
            return v
        if k in ('fptosi', 'fptoui'):
            return msk(math.trunc(v), t2[1])
        raise EngineError('cast ' + k)

    def fptoi(self, st, v, w, k):
        """symbolic float -> int: enumerate the feasible integer values (forks)"""
        if v.op in ('si2f', 'ui2f') and v.x <= w:
            return sext(v.a[0], v.x, w) if v.op == 'si2f' and v.x < w else zext(v.a[0], v.x, w) if v.x < w else v.a[0]
        if v.op == 'ite':
            a = v.a[1] if not isinstance(v.a[1], E) else None
            b = v.a[2] if not isinstance(v.a[2], E) else None
            def rec(x):
                if not isinstance(x, E):
                    return msk(math.trunc(x), w)
                if x.op == 'ite':
                    y, z = rec(x.a[1]), rec(x.a[2])
                    return None if y is None or z is None else ite(x.a[0], y, z, w)
                if x.op in ('si2f', 'ui2f') and x.x == w:
                    return x.a[0]
                return None
            r = rec(v)
            if r is not None:
                return r
        if self.be.name == 'ieee':
            lim = float(1 << (w - 1))
            self.require(st, b_and(fcmp('oge', v, -lim), fcmp('olt', v, lim)), 'float to integer conversion out of range', 'ub')
            return mk('f2si', w, (v,))
        key = (v.id, w)
        pend = st.choices.get(('fptoi', v.id))
        if pend is not None:
            return msk(pend, w)
        raise ForkFloat(v, w)

    # calls ------------------------------------------------------
    def op_call(self, st, fr, ins, work, base):
        callee = ins.x
        if callee[0] == 'g':
            name = callee[1]
        elif callee[0] == 'l':
            p = fr.regs[callee[1]]
            if isinstance(p, E):
                if p.op == 'ite':
                    # fork on the function pointer choice
                    c = p.a[0]
                    fr.regs[callee[1]] = p.a[1]
                    s2 = st.fork()
                    s2.frames[-1].regs[callee[1]] = p.a[2]
                    fa, fb = self.feasible(st, c), self.feasible(st, b_not(c))
                    if fb:
                        self.add_pc(s2, b_not(c))
                        work.append(s2)
                    if not fa:
                        raise PathEnd()
                    self.add_pc(st, c)
                    return
                raise EngineError('symbolic callee')
            name = self.addr_funcs.get(p)
            if name is None:
                self.require(st, 0, 'call through invalid function pointer', 'ub')
                raise PathEnd()
        elif callee[0] == 'asm':
            fr.ip += 1
            return
        else:
            name = callee[1]
        while name in self.m.aliases:
            a = self.m.aliases[name]
            name = a[1]
        h = self.handlers.get(name)
        if h is None:
            h = self.find_handler(name)
            self.handlers[name] = h
        args = None
        if h is not False:
            args = [(t, self.ev(fr, o, t)) if o is not None and o[0] != 'md' else (t, None) for t, o in ins.a]
            r = h(st, fr, ins, [v for _, v in args], work)
            if r is HANDLED:
                return
            if ins.res is not None:
                fr.regs[ins.res] = r
            fr.ip += 1
            return
        if name not in self.m.functions:
            raise EngineError('call to undefined function ' + name)
        args = [self.ev(fr, o, t) for t, o in ins.a]
        if self.mergere and self.is_merge(name):
            self.call_merged(st, fr, ins, name, args, work)
            return
        self.push(st, name, args, ins.res)

    def is_merge(self, name):
        r = self.mergecache.get(name)
        if r is None:
            r = any(x.search(name) for x in self.mergere)
            self.mergecache[name] = r
        return r

    def call_merged(self, st, fr, ins, name, args, work):
        base = len(st.frames)
        npc = len(st.pc)
        pre = list(st.pc)
        self.push(st, name, args, ins.res)
        done = self.explore(st, base)
        if not done:
            raise PathEnd()
        m = self.merge_states(done, npc)
        # m: list of states after the call
        for s in m:
            cf = s.frames[-1]
            v = s.wit[1]
            if ins.res is not None:
                cf.regs[ins.res] = v
            cf.ip += 1
        # continue with the object 'st' required by run_state
        first = m[0]
        for s in m[1:]:
            work.append(s)
        if first is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(first, a))

    def merge_states(self, states, npc):
        if len(states) == 1:
            return states
        acc = states[0]
        rest = []
        for s in states[1:]:
            if not self.merge2(acc, s, npc):
                rest.append(s)
        if rest:
            return [acc] + self.merge_states(rest, npc)
        return [acc]

    def merge2(self, a, b, npc):
        # common prefix
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ca = conj(a.pc[n:])
        cb = conj(b.pc[n:])
        if not isinstance(ca, E) or a.choices != b.choices:
            return False
        # return values
        ra, rb = a.wit[1], b.wit[1]
        rm = None
        if ra is not None:
            rm = self.try_ite(ca, ra, rb, a.wit[2])
            if rm is None:
                return False
        upd = []
        for oid, oa in a.mem.items():
            ob = b.mem.get(oid)
            if ob is oa:
                continue
            if ob is None:
                continue    # allocated on one side only: harmless unless referenced (pointer values differ -> no merge)
            if oa.lazy is not None:
                self.force(oa)
            if ob.lazy is not None:
                self.force(ob)
            if oa.size != ob.size or oa.alive != ob.alive:
                return False
            if oa.cells == ob.cells and oa.zero == ob.zero:
                continue
            keys = set(oa.cells) | set(ob.cells)
            new = {}
            for k in keys:
                x, y = oa.cells.get(k), ob.cells.get(k)
                if x is None or y is None:
                    o, z = (oa, x) if x is not None else (ob, y)
                    other = ob if x is not None else oa
                    if any(lo <= k and k + z[0] <= hi for lo, hi in other.zero) and self.cell_at(other, k) is None:
                        f = z[1]
                        zz = 0.0 if isinstance(f, float) or (isinstance(f, E) and f.s == 'f') else 0
                        x, y = (x, (z[0], zz)) if x is not None else ((z[0], zz), y)
                    else:
                        # written on one side only: uninitialised on the other
                        f = z[1]
                        s = f.s if isinstance(f, E) else 'f' if isinstance(f, float) else z[0] * 8
                        self.fresh += 1
                        u = var('__undef%d' % self.fresh, s)
                        x, y = (x, (z[0], u)) if x is not None else ((z[0], u), y)
                if x[0] != y[0]:
                    return False
                if x[1] is y[1] or same(x[1], y[1]):
                    continue
                v = self.try_ite(ca, x[1], y[1], x[0] * 8)
                if v is None:
                    return False
                new[k] = (x[0], v)
            upd.append((oid, new))
        # frames of the callers are identical (registers of callers unchanged)
        for oid, new in upd:
            o = self.wobj(a, oid)
            o.cells.update(new)
        for oid, ob in b.mem.items():
            if oid not in a.mem:
                a.mem[oid] = ob
        a.nobj = max(a.nobj, b.nobj)
        a.pc = a.pc[:n]
        d = b_or(ca, cb)
        if not (isinstance(cb, E) and (cb is b_not(ca))):
            if isinstance(d, E):
                a.pc.append(d)
        a.wit = (a.wit[0], rm, a.wit[2])
        a.labels |= b.labels
        seen = set(id(x[2]) for x in a.ufs)
        a.ufs = a.ufs + [u for u in b.ufs if id(u[2]) not in seen]
        a.steps = max(a.steps, b.steps)
        self.merged += 1
        return True

    def try_ite(self, c, x, y, s):
        """ite of two values, None if they cannot be merged"""
        if isinstance(x, tuple):
            r = []
            for p, q in zip(x, y):
                v = self.try_ite(c, p, q, None)
                if v is None:
                    return None
                r.append(v)
            return tuple(r)
        if same(x, y):
            return x
        fx = isinstance(x, float) or (isinstance(x, E) and x.s == 'f')
        fy = isinstance(y, float) or (isinstance(y, E) and y.s == 'f')
        if fx != fy:
            if not fx and not isinstance(x, E) and x == 0:
                x, fx = 0.0, True
            elif not fy and not isinstance(y, E) and y == 0:
                y, fy = 0.0, True
            else:
                return None
        if fx:
            return ite(c, x, y, 'f')
        cx, cy = not isinstance(x, E), not isinstance(y, E)
        if (cx and x >> 32 and s == 64) or (cy and y >> 32 and s == 64):
            return None         # pointers to different objects are kept on separate paths
        if not cx:
            s = x.s
        elif not cy:
            s = y.s
        if s is None or s == 'f':
            return None
        return ite(c, x, y, s)

    # ------------------------------------------------------------ external functions
    def find_handler(self, name):
        n = name[1:]
        if n.startswith('vs_'):
            return getattr(self, 'h_' + n, None) or self.bad(n)
        if n in self.m.functions or name in self.m.functions:
            return False
        if n in LIBM:
            return lambda st, fr, ins, a, w: self.libm(st, n, a)
        if n.startswith('llvm.'):
            return self.llvm_handler(n)
        if n in ('_Znwm', '_Znam', 'malloc'):
            def h(st, fr, ins, a, w):
                sz = a[0]
                if isinstance(sz, E):
                    sz = self.concretize_int(st, sz, 64)
                return self.new_obj(st, sz, 'heap', 'heap')
            return h
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            def h(st, fr, ins, a, w):
                p = a[0]
                if isinstance(p, E):
                    raise EngineError('symbolic free')
                if p == 0:
                    return None
                o = st.mem.get(p >> 32)
                if o is None or not o.alive or o.kind != 'heap' or p & 0xffffffff:
                    self.require(st, 0, 'mem: invalid free', 'ub')
                    return None
                o = self.wobj(st, p >> 32)
                o.alive = False
                o.cells = {}
                return None
            return h
        if n in ('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_pure_virtual'):
            return lambda st, fr, ins, a, w: 0
        if n in ('lround', 'lroundf', 'llround'):
            def h(st, fr, ins, a, w):
                v = a[0]
                if not isinstance(v, E):
                    return msk(int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1), 64)
                if v.op in ('si2f', 'ui2f'):
                    return self.fptoi(st, v, 64, 'fptosi')
                e = ite(fcmp('oge', v, 0.0), fcall('floor', [fbin('fadd', v, 0.5)]), fneg(fcall('floor', [fbin('fadd', fneg(v), 0.5)])), 'f')
                return self.fptoi(st, e, 64, 'fptosi')
            return h
        if n.startswith('_ZSt') and 'throw' in n or n in ('abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate', 'exit'):
            def h(st, fr, ins, a, w):
                self.require(st, 0, 'throws/aborts: ' + n, 'ub')
                raise PathEnd()
            return h
        if n == '_ZNSt8ios_base4InitC1Ev' or n == '_ZNSt8ios_base4InitD1Ev':
            return lambda st, fr, ins, a, w: None
        if n == 'memcmp':
            def h(st, fr, ins, a, w):
                if any(isinstance(x, E) for x in a):
                    raise EngineError('symbolic memcmp')
                for i in range(a[2]):
                    x, y = self.load(st, a[0] + i, ('i', 8)), self.load(st, a[1] + i, ('i', 8))
                    if isinstance(x, E) or isinstance(y, E):
                        raise EngineError('symbolic memcmp')
                    if x != y:
                        return 1 if x > y else 0xffffffff
                return 0
            return h
        return False

    def bad(self, n):
        raise EngineError('unknown intrinsic ' + n)

    def libm(self, st, n, a):
        if n == 'fabs':
            return fabs_(a[0])
        return self.fcall(n, a)

    def fcall(self, n, a):
        """libm call on reals: integer powers become products, exp(k*log(x)) a power, arguments are shared by normal form"""
        if self.o.mode == 'ieee' or not any(isinstance(x, E) for x in a):
            return fcall(n, a)
        if n == 'sqrt':
            r = self.simple_root(a[0])
            if r is not None:
                return r
        if n == 'expm1':
            return fbin('fsub', self.fcall('exp', a), 1.0)
        if n == 'exp2':
            return self.fcall('exp', [fbin('fmul', a[0], math.log(2))])
        if n == 'log2':
            return fbin('fdiv', self.fcall('log', a), math.log(2))
        if n == 'log10':
            return fbin('fdiv', self.fcall('log', a), math.log(10))
        if n == 'hypot':
            return self.fcall('sqrt', [fbin('fadd', fbin('fmul', a[0], a[0]), fbin('fmul', a[1], a[1]))])
        if n == 'cbrt':
            x, y = a[0], fneg(a[0])
            if self.interval(x)[0] >= 0:
                return self.fcall('pow', [x, 1 / 3.])
            return ite(fcmp('oge', x, 0.0), self.fcall('pow', [x, 1 / 3.]), fneg(self.fcall('pow', [y, 1 / 3.])), 'f')
        if n == 'exp':
            num, den = self.nf.norm(a[0])
            if den == poly.ONE and len(num) == 1:
                (m, k), = num.items()
                if len(m) == 1 and m[0][1] == 1:
                    at = self.nf.atoms[m[0][0]]
                    if at.op == 'call' and at.x == 'log':
                        return self.fcall('pow', [at.a[0], float(k)])
        if n == 'pow' and not isinstance(a[1], E):
            y = a[1]
            if y == int(y) and 1 <= abs(y) <= 8:
                r = a[0]
                for _ in range(int(abs(y)) - 1):
                    r = fbin('fmul', r, a[0])
                return r if y > 0 else fbin('fdiv', 1.0, r)
            if y == 0.5:
                return self.fcall('sqrt', [a[0]])
            if y < 0:
                return fbin('fdiv', 1.0, self.fcall('pow', [a[0], -y]))
            for d in (2, 3):
                # thirds and halves as powers of the root
                k = round(y * d)
                if 2 <= k <= 8 and abs(y * d - k) < 1e-12:
                    x = self.fcall('pow', [a[0], 1. / d])
                    r = x
                    for _ in range(k - 1):
                        r = fbin('fmul', r, x)
                    return r
            # positive constant factors are taken out
            x, k = a[0], 1.0
            while x.op == 'fmul' and (not isinstance(x.a[0], E) or not isinstance(x.a[1], E)) or x.op == 'fdiv' and not isinstance(x.a[1], E):
                c, x2 = (x.a[0], x.a[1]) if isinstance(x.a[1], E) else (x.a[1], x.a[0])
                if not 1e-30 < c < 1e30:
                    break
                k = k * c if x.op == 'fmul' else k / c
                x = x2
            if k != 1.0 and 1e-30 < k < 1e30:
                return fbin('fmul', k ** y, self.fcall('pow', [x, y]))
        return fcall(n, self.share(self.call_args, n, a))

    def simple_root(self, x):
        """root of a rational function of one variable: square denominator and leading coefficient in front of the root"""
        try:
            num, den = self.nf.norm(x)
        except (poly.TooBig, OverflowError, ValueError):
            return None
        n, d = poly.univariate(num), poly.univariate(den)
        if not n or not d or n[0] is not None and d[0] is not None and n[0] != d[0]:
            return None
        n, d, at = n[1], d[1], n[0] if n[0] is not None else d[0]
        c = n[-1]
        if at is None or at < 0 or len(n) > 7 or c <= 0 or c == 1 and len(d) == 1:
            return None
        v = self.nf.atoms[at]
        q = poly.square_root(d)
        if q is None:
            return None
        build = lambda p: self.horner(p, v)
        r = build(q)
        if isinstance(r, E) and not self.interval(r)[0] > 0 or not isinstance(r, E) and r <= 0:
            return None
        y = build([k / c for k in n])
        y = fcall('sqrt', self.share(self.call_args, 'sqrt', [y])) if isinstance(y, E) else math.sqrt(y)
        r = fbin('fmul', math.sqrt(c), fbin('fdiv', y, r))
        if isinstance(r, E):
            X.SQUARE[r.id] = (r, x)
        return r

    def horner(self, p, v):
        r = float(p[-1])
        for k in reversed(p[:-1]):
            r = fbin('fmul', r, v)
            r = fbin('fadd', r, float(k)) if k else r
        return r

    def share(self, table, n, args):
        """earlier arguments of n with the same normal form (up to rounding of the coefficients), or these"""
        new = []
        for nf in (self.nf, self.nfi):
            try:
                key, co = [n, nf.inverse], []
                for x in args:
                    for p in nf.norm(x):
                        it = sorted(p.items())
                        key.append(tuple(m for m, _ in it))
                        co += [float(c) for _, c in it]
            except (poly.TooBig, OverflowError, ValueError):
                continue
            l = table.setdefault(tuple(key), [])
            for co2, args2 in l:
                if all(abs(x - y) <= 1e-12 * abs(x) for x, y in zip(co, co2)):
                    return args2
            new.append((l, (co, args)))
        for l, v in new:
            l.append(v)
        return args

    def llvm_handler(self, n):
        b = n.split('.')
        k = b[1]
        if k in ('memcpy', 'memmove'):
            def h(st, fr, ins, a, w):
                self.memcpy(st, a[0], a[1], a[2])
            return h
        if k == 'memset':
            def h(st, fr, ins, a, w):
                self.memset(st, a[0], a[1], a[2])
            return h
        if k in ('lifetime', 'dbg', 'assume', 'invariant', 'stackrestore') or n.startswith('llvm.experimental.noalias') or k == 'donothing':
            return lambda st, fr, ins, a, w: None
        if k == 'stacksave':
            return lambda st, fr, ins, a, w: 0
        if k == 'expect':
            return lambda st, fr, ins, a, w: a[0]
        if k == 'is' and b[2] == 'constant':
            return lambda st, fr, ins, a, w: 0
        if k == 'is' and b[2] == 'fpclass':
            raise EngineError(n)
        if k in ('trap', 'ubsantrap'):
            def h(st, fr, ins, a, w):
                self.require(st, 0, 'signed integer overflow' if k == 'ubsantrap' else 'trap', 'ub')
                raise PathEnd()
            return h
        if k in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and b[2] == 'with':
            w0 = int(b[4][1:])
            o0 = k[1:]
            signed = k[0] == 's'

            def h(st, fr, ins, a, w):
                x, y = a
                if not isinstance(x, E) and not isinstance(y, E):
                    if signed:
                        x, y = sgn(x, w0), sgn(y, w0)
                    r = x + y if o0 == 'add' else x - y if o0 == 'sub' else x * y
                    m = msk(r, w0)
                    return (m, int((sgn(m, w0) if signed else m) != r))
                ok = self.no_overflow(o0, w0, x, y) if signed else None
                if ok is None:
                    ok = 1
                return (bv_bin(o0, w0, x, y), b_not(ok))
            return h
        if k == 'fmuladd' or k == 'fma':
            return lambda st, fr, ins, a, w: fbin('fadd', fbin('fmul', a[0], a[1]), a[2])
        if k in ('fabs',):
            return lambda st, fr, ins, a, w: fabs_(a[0])
        if k in ('sqrt', 'exp', 'log', 'pow', 'floor', 'ceil', 'trunc', 'sin', 'cos', 'log10', 'round', 'exp2', 'log2'):
            return lambda st, fr, ins, a, w: self.fcall(k, a)
        if k == 'powi':
            def h(st, fr, ins, a, w):
                return self.fcall('pow', [a[0], float(sgn(a[1], 32))])
            return h
        if k in ('minnum', 'maxnum'):
            nm = 'fmin' if k == 'minnum' else 'fmax'
            return lambda st, fr, ins, a, w: self.fcall(nm, a)
        if k == 'copysign':
            def h(st, fr, ins, a, w):
                if not isinstance(a[0], E) and not isinstance(a[1], E):
                    return math.copysign(a[0], a[1])
                return ite(fcmp('oge', a[1], 0.0), fabs_(a[0]), fneg(fabs_(a[0])), 'f')
            return h
        if k in ('umax', 'umin', 'smax', 'smin'):
            w0 = int(b[2][1:])
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            return lambda st, fr, ins, a, w: ite(icmp(pred, w0, a[0], a[1]), a[0], a[1], w0)
        if k == 'abs':
            w0 = int(b[2][1:])
            return lambda st, fr, ins, a, w: ite(icmp('slt', w0, a[0], 0), bv_bin('sub', w0, 0, a[0]), a[0], w0)
        if k == 'objectsize':
            return lambda st, fr, ins, a, w: M64
        raise EngineError('intrinsic ' + n)

    # ------------------------------------------------------------ harness intrinsics
    def cstr(self, st, p):
        out = []
        while True:
            c = self.load(st, p, ('i', 8))
            if c == 0:
                return bytes(out).decode()
            out.append(c)
            p += 1

    def input_name(self, st, n):
        return n

    def h_vs_double(self, st, fr, ins, a, w):
        n = self.cstr(st, a[0])
        lo, hi, pref = a[1], a[2], a[3]
        v = var(n, 'f')
        self.inputs[n] = {'kind': 'f', 'lo': lo, 'hi': hi, 'pref': pref, 'var': v}
        self.add_pc(st, fcmp('oge', v, lo))
        self.add_pc(st, fcmp('ole', v, hi))
        return v

    def h_vs_int(self, st, fr, ins, a, w):
        n = self.cstr(st, a[0])
        lo, hi = a[1], a[2]
        v = var(n, 32)
        self.inputs[n] = {'kind': 'i', 'lo': sgn(lo, 32), 'hi': sgn(hi, 32), 'pref': None, 'var': v}
        if sgn(lo, 32) != -(1 << 31):
            self.add_pc(st, icmp('sge', 32, v, lo))
        if sgn(hi, 32) != (1 << 31) - 1:
            self.add_pc(st, icmp('sle', 32, v, hi))
        return v

    def h_vs_choice(self, st, fr, ins, a, w):
        n = self.cstr(st, a[0])
        lo, hi = sgn(a[1], 32), sgn(a[2], 32)
        for v in range(hi, lo, -1):
            s2 = st.fork()
            s2.choices[n] = v
            f2 = s2.frames[-1]
            if ins.res is not None:
                f2.regs[ins.res] = msk(v, 32)
            f2.ip += 1
            w.append(s2)
            self.forks += 1
        st.choices[n] = lo
        return msk(lo, 32)

    def h_vs_assume(self, st, fr, ins, a, w):
        c = a[0]
        c = self.tobool(c)
        if isinstance(c, E):
            if not self.feasible(st, c):
                raise PathEnd()
        self.add_pc(st, c)

    def tobool(self, c):
        if isinstance(c, E) and c.s != 'b':
            return icmp('ne', c.s, c, 0)
        return c if isinstance(c, E) else int(bool(c))

    def h_vs_check(self, st, fr, ins, a, w):
        c = self.tobool(a[0])
        lab = self.cstr(st, a[1])
        st.labels.add(lab)
        self.require(st, c, lab, 'property')

    def h_vs_close(self, st, fr, ins, a, w):
        """|x-y| <= atol + rtol*|y|"""
        x, y, rt, at, lp = a
        lab = self.cstr(st, lp)
        st.labels.add(lab)
        self.require(st, self.close(x, y, rt, at), lab, 'property')

    def close(self, x, y, rt, at):
        if x is y:
            return 1
        if not isinstance(x, E) and not isinstance(y, E):
            if x == y:
                return 1
            return int(abs(x - y) <= at + rt * abs(y))
        if self.o.mode != 'ieee' and self.same_poly(x, y, rt, at):
            self.normalised += 1
            return 1
        d = fbin('fsub', x, y)
        tol = fbin('fadd', at, fbin('fmul', rt, fabs_(y))) if rt else at
        return b_and(fcmp('ole', d, tol), fcmp('ole', fneg(d), tol))

    def same_poly(self, x, y, rt, at):
        if isinstance(rt, E) or isinstance(at, E):
            return False
        ok, den = poly.close(self.nfi, x, y, rt, at, self.atom_bound_i)
        if not ok:
            ok, den = poly.close(self.nf, x, y, rt, at, self.atom_bound)
        if not ok:
            return False
        # a denominator that can vanish is left to the solver
        for v in (x, y):
            for n in walk([v]):
                if n.op == 'fdiv' and isinstance(n.a[1], E):
                    s = self.den_cache.get(n.a[1].id)
                    if s is None and self.nonzero(n.a[1]):
                        s = self.den_cache[n.a[1].id] = 'unsat'
                    if s is None:
                        s = self.den_cache[n.a[1].id] = self.be.check(self.box([n.a[1]]) + [fcmp('oeq', n.a[1], 0.0)] + self.gaxioms, 5.0, want_model=False)[0]
                    if s != 'unsat':
                        return False
        return True

    def nonzero(self, e):
        """e is a product of values whose ranges exclude zero, or its range does"""
        lo, hi = self.interval(e)
        if lo > 0 or hi < 0:
            return True
        num, den = self.nf.norm(e)
        if len(num) != 1 or len(den) != 1:
            return False
        for p in (num, den):
            for m in p:
                for aid, _ in m:
                    b = self.atom_bound(aid)
                    if b is None or not (b[0] is not None and b[0] > 0 or b[1] is not None and b[1] < 0):
                        return False
        return True

    def box(self, es):
        """range constraints of the inputs in es"""
        r = []
        for n, i in self.inputs.items():
            if i['kind'] == 'f' and any(i['var'].id in self.vars_of(e) for e in es):
                if i.get('lo') is not None:
                    r.append(fcmp('oge', i['var'], i['lo']))
                if i.get('hi') is not None:
                    r.append(fcmp('ole', i['var'], i['hi']))
        return [c for c in r if isinstance(c, E)]

    def atom_bound(self, aid):
        b = self.abounds.get(aid)
        if b is None:
            e = self.nf.atoms[aid]
            b = (None,)
            if e.op == 'var':
                for n, i in self.inputs.items():
                    if i['var'] is e and i['kind'] == 'f' and i.get('lo') is not None and i.get('hi') is not None:
                        b = (poly.rat(i['lo']), poly.rat(i['hi']))
            elif e.op == 'uf':
                r = self.be.uf_range.get(e.x)
                if r:
                    b = (poly.rat(r[0]), poly.rat(r[1]))
            elif e.op == 'call':
                lo, hi = self.interval(e)
                b = (poly.rat(lo) if lo > -INF else None, poly.rat(hi) if hi < INF else None)
            self.abounds[aid] = b
        return None if len(b) == 1 else b

    def atom_bound_i(self, aid):
        """the same for the normal form with inverse polynomials as atoms (negative ids): their sign"""
        if aid >= 0:
            self.nf.atoms.setdefault(aid, self.nfi.atoms[aid])
            return self.atom_bound(aid)
        sg = None
        for m, c in self.nfi.polys[aid].items():
            s = poly.msign(m, self.atom_bound_i) * (1 if c > 0 else -1)
            if s == 0 or (sg is not None and s != sg):
                return None
            sg = s
        return (poly.Fraction(0), None) if sg > 0 else (None, poly.Fraction(0))

    def interval(self, e):
        """enclosure of the values of a real expression from the ranges of inputs and stubs"""
        if not isinstance(e, E):
            return (float(e), float(e))
        c = self.ivals
        stack = [e]
        while stack:
            n = stack[-1]
            if n.id in c:
                stack.pop()
                continue
            if n.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'call'):
                todo = [x for x in n.a if isinstance(x, E) and x.id not in c]
            elif n.op == 'ite' and n.s == 'f':
                todo = [x for x in n.a[1:] if isinstance(x, E) and x.id not in c]
            else:
                todo = []
            if todo:
                stack.extend(todo)
                continue
            c[n.id] = self.interval1(n)
            stack.pop()
        return c[e.id]

    def interval1(self, n):
        if n.op in ('var', 'uf'):
            self.nf.atoms.setdefault(n.id, n)
            b = self.atom_bound(n.id)
            return (-INF, INF) if b is None else (-INF if b[0] is None else float(b[0]), INF if b[1] is None else float(b[1]))
        if n.op == 'ite' and n.s == 'f':
            (lo, hi), (l2, h2) = [self.ivals[x.id] if isinstance(x, E) else (float(x), float(x)) for x in n.a[1:]]
            c = n.a[0]
            if not isinstance(c, E) or self.never(b_not(c)):
                return (lo, hi) if isinstance(c, E) or c else (l2, h2)
            return (l2, h2) if self.never(c) else (min(lo, l2), max(hi, h2))
        if n.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'call'):
            return (-INF, INF)
        a = [self.ivals[x.id] if isinstance(x, E) else (float(x), float(x)) for x in n.a]
        try:
            if n.op == 'fneg':
                return (-a[0][1], -a[0][0])
            if n.op == 'fabs':
                lo, hi = a[0]
                return a[0] if lo >= 0 else (-hi, -lo) if hi <= 0 else (0.0, max(-lo, hi))
            if n.op == 'call':
                lo, hi = a[0]
                if n.x == 'sqrt':
                    r = (math.sqrt(max(lo, 0.0)), math.sqrt(hi) if hi < INF else INF)
                elif n.x in ('exp', 'pow', 'cosh'):
                    r = (0.0, INF)
                    if n.x == 'exp' and hi < 700:
                        r = (math.exp(lo) if lo > -700 else 0.0, math.exp(hi))
                    elif n.x == 'exp' and lo > -700:
                        r = (math.exp(min(lo, 700)), INF)
                    elif n.x == 'pow' and lo > 0 and not isinstance(n.a[1], E) and abs(n.a[1]) < 20 and hi < 1e15 and lo > 1e-15:
                        r = tuple(sorted((lo ** n.a[1], hi ** n.a[1])))
                    elif n.x == 'pow' and lo <= 1e-15 and not isinstance(n.a[1], E) and 0 < n.a[1] < 20 and n.a[1] != int(n.a[1]) and 1e-15 < hi < 1e15:
                        r = (0.0, hi ** n.a[1])         # a negative base has no value, as with the square root
                    elif n.x == 'pow' and not isinstance(n.a[0], E) and lo > 0 and -INF < a[1][0] and a[1][1] < INF and max(map(abs, a[1])) * abs(math.log(lo)) < 600:
                        r = tuple(sorted((lo ** a[1][0], lo ** a[1][1])))
                elif n.x == 'log1p' and lo > -1:
                    r = (math.log1p(lo), math.log1p(hi) if hi < INF else INF)
                elif n.x in ('log', 'log10') and lo > 0:
                    f = getattr(math, n.x)
                    r = (f(lo), f(hi) if hi < INF else INF)
                else:
                    return (-INF, INF)
            elif n.op == 'fadd':
                r = (a[0][0] + a[1][0], a[0][1] + a[1][1])
            elif n.op == 'fsub':
                r = (a[0][0] - a[1][1], a[0][1] - a[1][0])
            else:
                x, y = a
                if n.op == 'fdiv':
                    if y[0] <= 0 <= y[1]:
                        return (-INF, INF)
                    y = (1 / y[1], 1 / y[0])
                if n.op == 'fmul' and n.a[0] is n.a[1] and isinstance(n.a[0], E):
                    v = sorted((x[0] * x[0], x[1] * x[1]))
                    r = (0.0 if x[0] <= 0 <= x[1] else v[0], v[1])
                else:
                    v = [0.0 if p == 0 or q == 0 else p * q for p in x for q in y]
                    r = (min(v), max(v))
        except (OverflowError, ValueError, ZeroDivisionError):
            return (-INF, INF)
        if r[0] != r[0] or r[1] != r[1]:
            return (-INF, INF)
        # rounding of this calculation and of the constants
        if n.op in ('fadd', 'fsub'):
            k = 1e-13 * max(abs(v) for x in a for v in x if abs(v) < INF) if any(abs(v) < INF for x in a for v in x) else 0.0
            if all(x[0] >= 0 for x in a) and n.op == 'fadd' and r[0] - k < 0:
                return (0.0, r[1] + k)
            return (r[0] - k, r[1] + k)
        r = (r[0] - 1e-13 * abs(r[0]), r[1] + 1e-13 * abs(r[1]))
        if n.op == 'call' and n.x == 'exp':
            r = (max(1.0, r[0]) if a[0][0] >= 0 else r[0], min(1.0, r[1]) if a[0][1] <= 0 else r[1])
        return r

    def h_vs_ident(self, st, fr, ins, a, w):
        """bitwise the same computation (structural identity implies equality; otherwise ask the solver)"""
        x, y, lp = a
        lab = self.cstr(st, lp)
        st.labels.add(lab)
        if x is y or same(x, y):
            c = 1
        else:
            c = fcmp('oeq', x, y)
        self.require(st, c, lab, 'property')

    def h_vs_finite(self, st, fr, ins, a, w):
        v = a[0]
        if isinstance(v, E):
            return 1
        return int(math.isfinite(v))

    def h_vs_uf(self, st, fr, ins, a, w):
        n = self.cstr(st, a[0])
        args = tuple(a[2:])
        nargs = a[1]
        args = args[:nargs]
        if self.o.mode != 'ieee':
            # calls whose arguments have the same normal form are the same call
            args = self.share(self.uf_args, n, args)
        e = mk('uf', 'f', args, n)
        st.ufs.append((n, args, e))
        return e

    def h_vs_ufr(self, st, fr, ins, a, w):
        """stub function with a range"""
        self.be.uf_range[self.cstr(st, a[0])] = (a[1], a[2], False)
        return self.h_vs_uf(st, fr, ins, [a[0]] + list(a[3:]), w)

    def h_vs_ufm(self, st, fr, ins, a, w):
        """strictly increasing stub function of one argument"""
        self.be.uf_range[self.cstr(st, a[0])] = (a[1], a[2], True)
        return self.h_vs_uf(st, fr, ins, [a[0], 1, a[3]], w)

    def h_vs_reach(self, st, fr, ins, a, w):
        lab = self.cstr(st, a[0])
        st.labels.add('reach:' + lab)

    def h_vs_obs(self, st, fr, ins, a, w):
        st.obs.append((self.cstr(st, a[0]), a[1]))

    def h_vs_symbolic(self, st, fr, ins, a, w):
        return 1

    def h_vs_is_concrete(self, st, fr, ins, a, w):
        return 0 if isinstance(a[0], E) else 1

    def h_vs_note(self, st, fr, ins, a, w):
        return None


class Handled:
    pass


HANDLED = Handled()


class ForkInt(Exception):
    def __init__(self, e, w):
        self.e, self.w = e, w


class ForkFloat(Exception):
    def __init__(self, e, w):
        self.e, self.w = e, w


def same(a, b):
    if a is b:
        return True
    if isinstance(a, E) or isinstance(b, E):
        return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    return type(a) == type(b) and a == b


class Evaluator:
    """evaluate expressions in doubles under a model (missing variables -> default)"""

    def __init__(self, m, default=1.0):
        self.m = m
        self.memo = {}
        self.default = default

    def val(self, e):
        if not isinstance(e, E):
            return e
        for n in walk([e]):
            if n.id not in self.memo:
                self.memo[n.id] = self.node(n)
        return self.memo[e.id]

    def g(self, y):
        return self.memo[y.id] if isinstance(y, E) else y

    def node(self, n):
        a = [self.g(y) for y in n.a]
        op = n.op
        if op == 'var':
            v = self.m.get(n.x)
            if v is None:
                v = self.default if n.s == 'f' else 0
            return v
        if op == 'not':
            return 0 if a[0] else 1
        if op == 'and':
            return int(a[0] and a[1])
        if op == 'or':
            return int(a[0] or a[1])
        if op == 'xor':
            return int(bool(a[0]) != bool(a[1]))
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op == 'bv':
            return bv_bin(n.x, n.s, a[0], a[1])
        if op == 'icmp':
            w = n.a[0].s if isinstance(n.a[0], E) else n.a[1].s
            return icmp(n.x, w, a[0], a[1])
        if op == 'b2bv':
            return int(bool(a[0]))
        if op == 'bv2b':
            return a[0] & 1
        if op == 'zext':
            return a[0]
        if op == 'sext':
            return sext(a[0], n.x, n.s)
        if op == 'extract':
            return (a[0] >> n.x[0]) & ((1 << n.s) - 1)
        if op == 'concat':
            return (a[0] << n.x) | a[1]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return fbin(op, float(a[0]), float(a[1]))
        if op == 'fneg':
            return -a[0]
        if op == 'fabs':
            return abs(a[0])
        if op == 'fcmp':
            return fcmp(n.x, a[0], a[1])
        if op == 'call':
            return X.cfun(n.x, a)
        if op == 'uf':
            v = self.m.get(('uf', n.id))
            return v if v is not None else self.default
        if op == 'si2f':
            return float(sgn(a[0], n.x))
        if op == 'ui2f':
            return float(a[0])
        if op == 'fround':
            return f32(a[0])
        if op == 'f2si':
            return msk(math.trunc(a[0]), n.s)
        if op == 'bits':
            return f2bits(a[0])
        if op == 'frombits':
            return bits2f(a[0])
        raise Exception(op)
