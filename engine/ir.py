"""Parser for the textual LLVM IR that rustc emits for the crate under /repo."""
import re, struct

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<qstr>"(?:[^"])*")
 | (?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|f0x[0-9A-Fa-f]+|0x[A-Z]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<id>[-+]?[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

class IRError(Exception):
    pass

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[i:i+60])
        if m.end() == i:
            break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        if s.startswith(' ;', i):
            break
    return out

# types: ('i',N) ('f64',) ('f32',) ('ptr',) ('void',) ('arr',n,T) ('st',packed,(T..)) ('vec',n,T) ('label',) ('md',)
PTR = ('ptr',); F64 = ('f64',); VOID = ('void',)

TYPES = {}

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), self.t[:12]))
    def done(self):
        return self.i >= len(self.t)

    def is_type(self):
        k, v = self.peek()
        if k == 'id':
            return v in ('ptr', 'double', 'float', 'void', 'label', 'metadata', 'half', 'fp128') or re.fullmatch(r'i[0-9]+', v) is not None
        return (k == 'p' and v in '[{<') or (k == 'loc' and v in TYPES)

    def type(self):
        k, v = self.next()
        if k == 'loc':
            if v not in TYPES:
                raise IRError('named type ' + v)
            d = TYPES[v]
            if isinstance(d, str):
                d = TYPES[v] = P(tokenize(d)).type()
            return d
        if k == 'id':
            if v == 'ptr':
                return PTR
            if v == 'double':
                return F64
            if v == 'float':
                return ('f32',)
            if v == 'void':
                return VOID
            if v == 'label':
                return ('label',)
            if v == 'metadata':
                return ('md',)
            if v in ('fp128', 'half'):
                return (v,)
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:]))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        elif v == '{':
            return self._struct(False)
        elif v == '<':
            if self.accept('{'):
                r = self._struct(True)
                self.expect('>')
                return r
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise IRError('type? %r %r' % (k, v))

    def _struct(self, packed):
        ts = []
        if self.accept('}'):
            return ('st', packed, ())
        while True:
            ts.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('st', packed, tuple(ts))

    def skip_attrs(self):
        """skip parameter attributes"""
        while True:
            k, v = self.peek()
            if k == 'id' and v not in ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint', 'nan', 'inf', '+inf', '-inf', '+nan', '-nan', '+qnan', '-qnan', 'qnan', 'asm', 'splat', 'none', 'add', 'sub'):
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_paren()
                elif v == 'align':
                    self.i += 1
            elif k == 'qstr':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def value(self, ty):
        """returns operand: ('l',name) | ('c',pythonvalue) | ('g',name,off) | ('agg',[..])"""
        k, v = self.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v, 0)
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            if ty[0] in ('f64', 'f32'):
                return ('c', parse_float(v, ty))
            raise IRError('num for type %r' % (ty,))
        if k == 'str':
            return ('bytes', parse_cstr(v))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v in ('inf', '+inf'):
                return ('c', float('inf'))
            if v == '-inf':
                return ('c', float('-inf'))
            if v in ('nan', '+nan', '-nan', 'qnan', '+qnan', '-qnan'):
                if self.peek()[1] == '(':
                    self.skip_paren()
                return ('c', float('nan'))
            if v == 'getelementptr':
                while self.peek()[0] == 'id':
                    self.i += 1
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = []
                while True:
                    ot = self.type()
                    ops.append((ot, self.value(ot)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('gep', t, ops)
            if v in ('inttoptr', 'ptrtoint'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(')')
                return ('splat', x)
        if k == 'p':
            close = {'[': ']', '{': '}', '<': '>'}.get(v)
            if close:
                if v == '<' and self.accept('{'):
                    close = '}'
                    packed = True
                else:
                    packed = False
                vals = []
                if not self.accept(close):
                    while True:
                        t = self.type()
                        vals.append((t, self.value(t)))
                        if self.accept(close):
                            break
                        self.expect(',')
                if packed:
                    self.expect('>')
                return ('agg', vals)
        raise IRError('value? %r %r of %r' % (k, v, ty))

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

def parse_float(v, ty):
    if v.startswith('f0x'):
        h = v[3:]
        if len(h) == 16:
            return struct.unpack('>d', bytes.fromhex(h))[0]
        if len(h) == 8:
            return struct.unpack('>f', bytes.fromhex(h))[0]
        raise IRError('float ' + v)
    if v.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)

def parse_cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i+1:i+3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)

SIZES = {}
def sizeof(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if k == 'f64' or k == 'ptr':
        return 8
    if k == 'f32':
        return 4
    if k == 'arr':
        return t[1] * sizeof(t[2])
    if k == 'vec':
        return t[1] * sizeof(t[2])
    if k == 'st':
        off = 0
        for x in t[2]:
            if not t[1]:
                a = alignof(x)
                off = (off + a - 1) // a * a
            off += sizeof(x)
        if not t[1]:
            a = alignof(t)
            off = (off + a - 1) // a * a
        return off
    raise IRError('sizeof %r' % (t,))

def alignof(t):
    k = t[0]
    if k == 'i':
        return min(sizeof(t), 16)
    if k in ('f64', 'ptr'):
        return 8
    if k == 'f32':
        return 4
    if k == 'arr':
        return alignof(t[2])
    if k == 'vec':
        return sizeof(t)
    if k == 'st':
        if t[1]:
            return 1
        return max([alignof(x) for x in t[2]] or [1])
    raise IRError('alignof')

def field_off(t, i):
    if t[0] in ('arr', 'vec'):
        return i * sizeof(t[2]), t[2]
    off = 0
    for j, x in enumerate(t[2]):
        if not t[1]:
            a = alignof(x)
            off = (off + a - 1) // a * a
        if j == i:
            return off, x
        off += sizeof(x)
    raise IRError('field_off')

class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'lines', 'parsed', 'sret', 'loops')

class Module:
    def __init__(self, path):
        self.funcs = {}
        self.globals = {}
        self.decls = {}
        with open(path) as f:
            text = f.read()
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                body = [l]
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                name = fn_name(l)
                fn = Func()
                fn.name = name
                fn.lines = body
                fn.parsed = False
                fn.loops = None
                self.funcs[name] = fn
            elif l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1)
                TYPES[nm] = d
            elif l.startswith('declare '):
                self.decls[fn_name(l)] = l
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
            i += 1

    def func(self, name):
        fn = self.funcs.get(name)
        if fn is None:
            return None
        if not fn.parsed:
            parse_func(fn)
        return fn

    def global_init(self, name):
        """returns (type, value operand, const)"""
        s = self.globals[name]
        p = P(tokenize(s))
        const = False
        while True:
            k, v = p.peek()
            if v == 'alias':
                p.next()
                t = p.type()
                p.expect(',')
                t2 = p.type()
                return ('alias', p.value(t2), True)
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            if p.done():
                raise IRError('global ' + s[:80])
            p.next()
            if p.peek()[1] == '(':
                p.skip_paren()
        t = p.type()
        if p.done() or p.peek()[1] == ',':
            return (t, None, const)
        return (t, p.value(t), const)

def fn_name(l):
    m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
    return m.group(1)

FM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'samesign', 'nneg', 'volatile', 'inrange'} | FM

def parse_func(fn):
    hdr = fn.lines[0]
    p = P(tokenize(hdr))
    # find return type: scan to glob
    gi = next(j for j, (k, v) in enumerate(p.t) if k == 'glob')
    # ret type: parse from somewhere before gi. try positions
    ret = None
    for j in range(1, gi):
        q = P(p.t[:gi])
        q.i = j
        if q.is_type():
            try:
                t = q.type()
            except Exception:
                continue
            if q.i == gi:
                ret = t
                break
    fn.ret = ret
    p.i = gi + 1
    p.expect('(')
    params = []
    if not p.accept(')'):
        while True:
            t = p.type()
            p.skip_attrs()
            k, v = p.next()
            params.append((t, v))
            if p.accept(')'):
                break
            p.expect(',')
    fn.params = params
    blocks = {}
    order = []
    cur = None
    i = 1
    L = fn.lines
    while i < len(L):
        l = L[i]
        if not l.strip():
            i += 1
            continue
        if not l.startswith(' '):
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            lab = '%' + m.group(1)
            cur = []
            blocks[lab] = cur
            order.append(lab)
        else:
            s = l
            if s.lstrip().startswith('switch') and ']' not in s:
                while True:
                    i += 1
                    s += ' ' + L[i].strip()
                    if L[i].strip().startswith(']'):
                        break
            if s.lstrip().startswith(';') or '#dbg_' in s[:12]:
                i += 1
                continue
            if '@llvm.lifetime.' in s or '@llvm.experimental.noalias.scope' in s:
                i += 1
                continue
            if cur is None:
                cur = []
                blocks['%start'] = cur
                order.append('%start')
            cur.append(parse_inst(s))
        i += 1
    fn.blocks = blocks
    fn.order = order
    fn.parsed = True
    fn.lines = None

def parse_inst(s):
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    while p.peek()[1] in FLAGS:
        p.next()
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', res, op, t, a, b)
    if op == 'fneg':
        t = p.type()
        return ('fneg', res, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, res, pred, t, a, b)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return ('br', p.next()[1])
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        return ('switch', t, c, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', t, None)
        return ('ret', t, p.value(t))
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((p.next()[1], v))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek()[0] == 'md':
                break
        return ('phi', res, t, dict(inc))
    if op == 'select':
        t0 = p.type()
        c = p.value(t0)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return ('select', res, t0, c, t, a, b)
    if op == 'load':
        p.accept('atomic')
        t = p.type()
        p.expect(',')
        t2 = p.type()
        return ('load', res, t, p.value(t2))
    if op == 'store':
        p.accept('atomic')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        return ('store', t, v, p.value(t2))
    if op == 'alloca':
        t = p.type()
        return ('alloca', res, t)
    if op == 'getelementptr':
        t = p.type()
        p.expect(',')
        ops = []
        while True:
            ot = p.type()
            ops.append((ot, p.value(ot)))
            if not p.accept(','):
                break
            if p.peek()[0] == 'md':
                break
        return ('gep', res, t, ops)
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'freeze'):
        t = p.type()
        v = p.value(t)
        if op == 'freeze':
            return ('cast', res, op, t, v, t)
        p.expect('to')
        return ('cast', res, op, t, v, p.type())
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'md':
                break
            idx.append(int(p.next()[1]))
        return ('extractvalue', res, t, v, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        x = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'md':
                break
            idx.append(int(p.next()[1]))
        return ('insertvalue', res, t, v, t2, x, idx)
    if op == 'call':
        # ret attrs / cc
        while not p.is_type():
            k, v = p.next()
            if p.peek()[1] == '(':
                p.skip_paren()
            elif v == 'align':
                p.next()
        t = p.type()
        if p.peek()[1] == '(':      # function type given
            p.skip_paren()
        if p.peek()[1] == 'asm':
            return ('asm', res, t)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at == ('md',):
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v in '({[':
                            d += 1
                        elif v in ')}]':
                            d -= 1
                    args.append((at, ('undef',)))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        return ('call', res, t, callee, args)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type()
        return ('extractelement', res, t, v, p.value(t2))
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); x = p.value(t2); p.expect(','); t3 = p.type()
        return ('insertelement', res, t, v, x, p.value(t3))
    return ('unsupported', res, op, s.strip()[:200])
