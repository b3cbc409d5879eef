"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the code under check."""
import re, struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # c-string
  | "(?:[^"])*"                                # quoted
  | [%@$!\#]"(?:[^"])*"                        # quoted identifier
  | -?\d+\.\d+e[+-]\d+                      # float
  | [%@$!\#]?[-a-zA-Z$._0-9]+                  # identifier / number / keyword
  | \.\.\.
  | [()\[\]{}<>,=*!\#|:]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class TypeTable:
    def __init__(self):
        self.named = {}
        self._sz = {}
        self._off = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        if k == 'vec':
            return self.size(t)
        raise Exception('align %r' % (t,))

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._size(t)
            self._sz[t] = r
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            offs, total = self.offsets(t)
            return total
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'void' or k == 'func':
            return 1
        raise Exception('size %r' % (t,))

    def offsets(self, t):
        t = self.resolve(t)
        r = self._off.get(t)
        if r is not None:
            return r
        o = 0
        offs = []
        mx = 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            mx = max(mx, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        o = (o + mx - 1) // mx * mx
        self._off[t] = (offs, o)
        return offs, o


PRIM = {'double': ('double',), 'float': ('float',), 'ptr': ('ptr',), 'void': ('void',), 'label': ('label',),
        'metadata': ('metadata',), 'x86_fp80': ('x86_fp80',), 'fp128': ('fp128',), 'half': ('half',), 'token': ('token',)}

ATTR_WORDS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
              'readnone', 'returned', 'immarg', 'nest', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'swiftself',
              'allocptr', 'allocalign', 'nofpclass', 'dead_on_unwind', 'writable', 'swifterror', 'nofree', 'inalloca'}
ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype', 'byref',
              'preallocated', 'nofpclass', 'memory', 'allocsize'}

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'atomic', 'tail', 'musttail', 'notail'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Exception('expected %s got %s in %s' % (x, y, ' '.join(self.t)[:300]))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x in PRIM:
            t = PRIM[x]
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            l = []
            if not self.accept('}'):
                l.append(self.type())
                while self.accept(','):
                    l.append(self.type())
                self.expect('}')
            t = ('struct', tuple(l), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                l = []
                if not self.accept('}'):
                    l.append(self.type())
                    while self.accept(','):
                        l.append(self.type())
                    self.expect('}')
                self.expect('>')
                t = ('struct', tuple(l), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x[0] == '%':
            t = ('named', x)
        elif x == 'opaque':
            t = ('struct', (), False)
        else:
            raise Exception('type? %s in %s' % (x, ' '.join(self.t)[:200]))
        # function type suffix
        if self.peek() == '(' and x != 'ptr':
            save = self.i
            self.skip_parens()
            t = ('func', t)
        while self.accept('*'):
            t = ('ptr',)
        return t

    def attrs(self):
        sret = None
        while True:
            x = self.peek()
            if x is None:
                break
            if x in ATTR_WORDS:
                self.next()
            elif x in ATTR_PAREN:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()  # align N
            elif x.startswith('"') and not x.startswith('%"'):
                self.next()
                if self.accept('='):
                    self.next()
            elif x.startswith('#'):
                self.next()
            else:
                break

    def operand(self, ty):
        """parse a value of type ty -> operand tuple"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('l', x)
        if c == '@':
            return ('g', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('u', ty)
        if x == 'zeroinitializer':
            return ('z', ty)
        if x == 'none':
            return ('c', 0)
        if c == 'c' and x.startswith('c"'):
            return ('s', parse_cstr(x[2:-1]))
        if c.isdigit() or (c == '-' and len(x) > 1):
            k = self.m.types.resolve(ty)[0] if ty else 'i'
            if k == 'i':
                return ('c', int(x) & ((1 << ty[1]) - 1))
            if k in ('double', 'float'):
                if x.startswith('0x'):
                    v = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
                else:
                    v = float(x)
                return ('c', v)
            if k == 'x86_fp80':
                return ('c', x)
            raise Exception('number of type %r' % (ty,))
        if x == '[' or x == '{' or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            else:
                packed = False
            l = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    l.append((t, self.operand(t)))
                    if not self.accept(','):
                        break
                self.expect(close)
            if packed:
                self.expect('>')
            return ('agg', l)
        if x == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                self.accept('inrange')
                t = self.type()
                args.append((t, self.operand(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', bt, args)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.operand(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t = self.type()
            a = self.operand(t)
            self.expect(',')
            self.type()
            b = self.operand(t)
            self.expect(')')
            return ('bin', x, t, a, b)
        if x == 'asm':
            # inline asm: skip to the call parens
            while self.peek() != '(':
                self.next()
            return ('asm', None)
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'no_cfi':
            raise Exception('unsupported const ' + x)
        raise Exception('operand? %s in %s' % (x, ' '.join(self.t)[:300]))


def parse_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'params', 'rtype', 'blocks', 'entry', 'lines', 'parsed', 'vararg', 'ptypes')

    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.entry = None
        self.parsed = False


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'x')

    def __init__(self, op, res, ty, a, flags=(), x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.flags = flags
        self.x = x


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'global', 'constant',
           'fastcc', 'ccc', 'coldcc', 'internal'}


class Module:
    def __init__(self, path):
        self.types = TypeTable()
        self.globals = {}   # name -> (type, init operand or None, is_const)
        self.functions = {}
        self.declares = {}
        self.aliases = {}
        self.load(path)

    def load(self, path):
        lines = open(path).read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ' ;!}':
                i += 1
                continue
            if l[0] == '%':
                m = re.match(r'(%"[^"]*"|%[-\w$.]+) = type (.*)$', l)
                p = P(tokenize(m.group(2)), self)
                self.types.named[m.group(1)] = p.type()
            elif l[0] == '@':
                self.parse_global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.declares['@' + m.group(1)] = l
            i += 1

    def parse_global(self, l):
        toks = tokenize(l)
        p = P(toks, self)
        name = p.next()
        p.expect('=')
        const = False
        ext = False
        while True:
            x = p.peek()
            if x in LINKAGE:
                if x == 'constant':
                    const = True
                if x == 'external' or x == 'extern_weak':
                    ext = True
                p.next()
                if x in ('global', 'constant'):
                    break
                if x == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
            elif x == 'alias' or x == 'ifunc':
                p.next()
                t = p.type()
                p.expect(',')
                t2 = p.type()
                self.aliases[name] = p.operand(t2)
                return
            elif x == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                raise Exception('global? %s : %s' % (x, l[:200]))
        t = p.type()
        init = None
        if not ext and p.peek() is not None and p.peek() != ',':
            init = p.operand(t)
        self.globals[name] = (t, init, const)

    def parse_define(self, l, body):
        # header: define <stuff> <rettype> @name(params) attrs {
        m = re.search(r' (@"[^"]*"|@[-\w$.]+)\(', l)
        name = m.group(1)
        head = l[:m.start()]
        # return type: strip leading keywords / attributes
        p = P(tokenize(head), self)
        p.next()
        while p.peek() in LINKAGE:
            p.next()
        p.attrs()
        while p.peek() in LINKAGE:
            p.next()
        p.attrs()
        rt = p.type()
        p = P(tokenize(l[m.end() - 1:]), self)
        p.expect('(')
        f = Function(name)
        f.rtype = rt
        f.vararg = False
        f.ptypes = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                else:
                    t = p.type()
                    p.attrs()
                    nm = p.next()
                    f.params.append(nm)
                    f.ptypes.append(t)
                if not p.accept(','):
                    break
            p.expect(')')
        f.lines = body
        self.functions[name] = f

    def get(self, name):
        f = self.functions.get(name)
        if f is not None and not f.parsed:
            self.parse_body(f)
        return f

    def parse_body(self, f):
        cur = None
        blocks = {}
        # entry block label: number of params if unnamed
        body = f.lines
        i = 0
        n = len(body)
        first = True
        while i < n:
            l = body[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                if m:
                    lab = '%' + m.group(1)
                    cur = []
                    blocks[lab] = cur
                    if first:
                        f.entry = lab
                        first = False
                continue
            if cur is None:
                cur = []
                # implicit entry label
                unnamed = [q for q in f.params if q[1:].isdigit()]
                lab = '%' + str(len(unnamed))
                blocks[lab] = cur
                f.entry = lab
                first = False
            s = l.strip()
            if s.startswith('switch'):
                while not s.rstrip().endswith(']') and ']' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
            if s.startswith(';'):
                continue
            ins = self.parse_instr(s)
            if ins is not None:
                cur.append(ins)
        f.blocks = blocks
        f.parsed = True
        f.lines = None

    def parse_instr(self, s):
        # strip metadata suffix
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        toks = tokenize(s)
        p = P(toks, self)
        res = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            res = toks[0]
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        flags = ()
        if op in BINOPS:
            fl = []
            while p.peek() in FLAGS:
                fl.append(p.next())
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return Instr(op, res, t, (a, b), tuple(fl))
        if op == 'load':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = p.operand(pt)
            return Instr('load', res, t, (a,))
        if op == 'store':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            v = p.operand(t)
            p.expect(',')
            pt = p.type()
            a = p.operand(pt)
            return Instr('store', None, t, (v, a))
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            args = []
            while p.accept(','):
                t = p.type()
                args.append((t, p.operand(t)))
            return Instr('gep', res, bt, args)
        if op == 'call':
            while p.peek() in FLAGS:
                p.next()
            while p.peek() in LINKAGE:
                p.next()
            p.attrs()
            rt = p.type()
            if rt[0] == 'func':
                rt = rt[1]
            p.attrs()
            callee = p.operand(('ptr',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    p.attrs()
                    if t[0] == 'metadata':
                        # skip metadata operand
                        d = 0
                        while p.peek() not in (',', ')') or d:
                            y = p.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
                        args.append((t, ('c', 0)))
                    else:
                        args.append((t, p.operand(t)))
                    if not p.accept(','):
                        break
                p.expect(')')
            return Instr('call', res, rt, args, (), callee)
        if op == 'br':
            if p.accept('label'):
                return Instr('br', None, None, p.next())
            p.type()
            c = p.operand(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return Instr('cbr', None, None, (c, a, b))
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return Instr('ret', None, t, None)
            return Instr('ret', None, t, p.operand(t))
        if op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.operand(t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return Instr('phi', res, t, inc)
        if op == 'icmp' or op == 'fcmp':
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return Instr(op, res, t, (a, b), (), pred)
        if op == 'select':
            while p.peek() in FLAGS:
                p.next()
            ct = p.type()
            c = p.operand(ct)
            p.expect(',')
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            p.type()
            b = p.operand(t)
            return Instr('select', res, t, (c, a, b))
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = (ct, p.operand(ct))
            return Instr('alloca', res, t, cnt)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.operand(t)
            p.expect('to')
            t2 = p.type()
            return Instr('cast', res, t2, (a, t), (), op)
        if op == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            return Instr('fneg', res, t, (p.operand(t),))
        if op == 'freeze':
            t = p.type()
            return Instr('freeze', res, t, (p.operand(t),))
        if op == 'unreachable':
            return Instr('unreachable', None, None, None)
        if op == 'switch':
            t = p.type()
            v = p.operand(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.operand(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return Instr('switch', None, t, (v, d, cases))
        if op == 'extractvalue':
            t = p.type()
            a = p.operand(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr('extractvalue', res, t, (a, idx))
        if op == 'insertvalue':
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            t2 = p.type()
            b = p.operand(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr('insertvalue', res, t, (a, b, idx))
        if op == 'fence':
            return None
        raise Exception('instr? ' + s)
