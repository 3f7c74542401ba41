"""Symbolic executor for the LLVM IR of the crate, with contracts.

A harness is executed along every feasible path (re-execution with a decision
script); every `ensures` reached on a path is a proof obligation.
"""
import re, math, struct, sys
from fractions import Fraction
import ir
from terms import *
from solver import *
import refute
from loops import cond_map, Loops, LoopRestart, loops_of, POISON, Poison

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class PathEnd(Exception):
    """path infeasible (requires violated)"""
class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg
class Budget(BaseException):
    pass

class Special:
    __slots__ = ('n',)
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return self.n
NAN = Special('nan')
PINF = Special('inf')
NINF = Special('-inf')
class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()
import loops as _loops
_loops.UNDEF, _loops.Unsupported = UNDEF, Unsupported

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj and self.obj.name, self.off)
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off
    def __hash__(self):
        return hash((id(self.obj), self.off))
NULL = Ptr(None, 0)

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n):
        self.name = n
    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name
    def __hash__(self):
        return hash(self.name)

class SymInt:
    """symbolic non-negative integer (fits the machine width)"""
    __slots__ = ('p',)
    def __init__(self, p):
        self.p = p
    def __repr__(self):
        return 'SymInt(%s)' % show(self.p)

class FBits:
    """the bit pattern of a float value, seen as an integer"""
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = v

class PtrInt:
    __slots__ = ('p',)
    def __init__(self, p):
        self.p = p

class Obj:
    __slots__ = ('name', 'size', 'cells', 'gen', 'again', 'esz', 'ro', 'n', 'freed', 'arr', 'tag', 'uid')
    reg = []
    def __init__(self, name, size):
        self.uid = len(Obj.reg)
        Obj.reg.append(self)
        self.name = name
        self.size = size
        self.cells = {}
        self.gen = None
        self.again = None
        self.esz = 0
        self.n = None
        self.ro = False
        self.freed = False
        self.arr = None
        self.tag = None

def size_of_val(v):
    return 8

M64 = (1 << 64) - 1

class Result:
    def __init__(self):
        self.ob = {}        # name -> dict(proved=, failed=[...])
        self.paths = 0
        self.panics = 0
        self.feasible_requires = 0

class Engine(Loops):
    def __init__(self, module, demangle, log=None, rlimit=3000000, max_paths=4000, max_steps=4000000):
        self.m = module
        self.dem = demangle
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.rlimit = rlimit
        self.log = log
        self.W = World()
        CUR[0] = self.W
        self.sh = Shared(self.W, rlimit)
        self.lenient_eq = False
        self.ranges = {}
        self.refutations = 0
        self.called = set()
        self.trusted = set()
        self.assumed = set()

    # ------------------------------------------------------------------ driver
    def run_harness(self, fname):
        self.res = Result()
        self.loopinfo = {}
        self.collect = None
        self.arrivals = []
        self.over = False
        self.explore(fname, [[]])
        return self.res

    def explore(self, fname, work):
        while work:
            script = work.pop()
            self.start_path(script)
            try:
                self.call_ir(fname, [])
                self.finish_path()
            except PathEnd:
                pass
            except Panic as e:
                if self.collect is None:
                    self.on_panic(e)
            except LoopRestart as e:
                self.depth = 0
                self.collect_loop(fname, e.key, e.trace)
                # everything behind the entry of the loop is explored again
                n = len(e.trace)
                work[:] = [s for s in work if len(s) <= n or s[:n] != e.trace]
                if self.collect:
                    self.arrivals[:] = [a for a in self.arrivals if a['trace'][:n] != e.trace]
                work += [e.trace] + e.alts
                continue
            self.res.paths += 1
            if self.res.paths > self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            work += self.new_scripts

    def start_path(self, script):
        Obj.reg = self.objs = []
        self.loops_start()
        self.script = script
        self.pos = 0
        self.trace = []
        self.new_scripts = []
        self.ps = PathSolver(self.W, self.sh)
        self.steps = 0
        self.globals = {}
        self.stubs = {}
        self.panic_spec = None
        self.allocs = 0
        self.named = {}
        self.uid = 0
        self.inputs = []
        self.ghost = {}
        self.nensures = 0
        self.strings = {}

    def finish_path(self):
        if self.panic_spec is not None:
            nm, c = self.panic_spec
            self.oblige(nm, neg_cond(c), 'completes although it must fail')

    def on_panic(self, e):
        if self.panic_spec is not None:
            nm, c = self.panic_spec
            self.res.panics += 1
            self.oblige(nm, c, 'panic: ' + e.msg)
        else:
            self.res.panics += 1
            # is the path really feasible?
            r = self.ps.sat([])
            self.record('no-panic', r == 'unsat', 'reachable panic: %s' % e.msg, 'z3', True)

    def record(self, name, ok, detail, how, neg=None):
        if self.collect is not None:
            return
        d = self.res.ob.setdefault(name, {'proved': 0, 'failed': [], 'how': {}})
        if ok:
            d['proved'] += 1
            d['how'][how] = d['how'].get(how, 0) + 1
        else:
            f = {'detail': detail, 'path': [self.cshow(c)[:400] for c in self.ps.pc][:40],
                 'consts': self.path_consts(), 'refuted': False, 'inputs': dict(self.inputs)}
            d['failed'].append(f)
            if neg is not None and self.refutations < 12 and not self.over:
                self.refutations += 1
                try:
                    f['refuted'], vals = refute.refute(self, neg)
                    f['inputs'].update(vals)
                except Exception as x:
                    f['refute_error'] = repr(x)[:200]
            if (f['refuted'] or self.over) and getattr(self, 'on_fail', None):
                self.on_fail(45 if f['refuted'] else 100)

    def path_consts(self):
        out = set()
        for c in self.ps.pc:
            if isinstance(c, tuple) and c[0] in ('lt', 'le', 'eq', 'ne'):
                k = c[1].t.get(())
                if k:
                    out.add(float(k))
        return sorted(out)[:20]

    def cshow(self, c):
        if isinstance(c, bool):
            return str(c)
        if c[0] in ('and', 'or'):
            return '(%s %s %s)' % (self.cshow(c[1]), c[0], self.cshow(c[2]))
        return '%s %s 0' % (show(c[1], self.W), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[c[0]])

    def oblige(self, name, cond, detail=''):
        self.nensures += 1
        if self.facts and isinstance(cond, tuple):
            cond = cond_map(cond, lambda p: self.norm_over(p)[0])
            self.sum_signs(cond)
        if cond is True:
            self.record(name, True, '', 'syntactic')
            return
        q = self.ps.quick(cond)
        if q is True:
            self.record(name, True, '', 'sign rules')
            return
        if cond is not False and cond[0] in ('and',):
            pass
        r = self.ps.valid(cond, self.rlimit * 10)
        self.record(name, r, detail or ('cannot show ' + self.cshow(cond)), 'z3', neg_cond(cond))

    def oblige_eq(self, name, a, b):
        self.nensures += 1
        if isinstance(a, Special) or isinstance(b, Special):
            self.record(name, a is b or self.ps.sat([]) == 'unsat', 'values %r and %r differ' % (a, b), 'special values', True)
            return
        if self.kstack or self.facts or self.loops_on:
            a, b = self.norm_over(a, b)
        d = self.W.diff(a, b)
        if not d.t:
            self.record(name, True, '', 'normal form')
            return
        if self.W.maybe_zero(d):
            try:
                if self.W.is_zero(d):
                    self.record(name, True, '', 'normal form' if self.W.last_exact else 'normal form (1e-9)')
                    return
            except TermError:
                pass
        d2 = self.subst_eqs(d)
        d = self.smaller(d)
        if d2 is not d:
            try:
                if not d2.t or self.W.is_zero(d2):
                    self.record(name, True, '', 'normal form')
                    return
            except TermError:
                pass
        c = canon('eq', d)
        r = self.ps.valid(c, self.rlimit * (2 if self.over else 10))
        if not r and self.ps.sat([]) == 'unsat':
            r = True
        self.record(name, r, 'cannot show %s == %s' % (show(a, self.W)[:600], show(b, self.W)[:600]), 'z3', neg_cond(c))

    def subst_eqs(self, d):
        """use path equalities  x*k + rest == 0 (x a plain atom not in rest) as substitutions"""
        W = self.W
        for c in self.ps.pc:
            if not (isinstance(c, tuple) and c[0] == 'eq'):
                continue
            p = c[1]
            best = None
            for m, k in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and W.atoms[m[0][0]].kind not in ('pi',):
                    aid = m[0][0]
                    if all(aid not in dict(m2) for m2 in p.t if m2 != m):
                        if best is None or aid > best[0]:
                            best = (aid, m, k)
            if best is None:
                continue
            aid, m, k = best
            if aid not in W.atoms_of(d):
                continue
            rest = Poly({m2: c2 for m2, c2 in p.t.items() if m2 != m})
            val = scale(rest, -1 / Fraction(k))
            d = self.subst(d, aid, val)
        return d

    def subst(self, p, aid, val):
        W = self.W
        out = ZERO
        for m, c in p.t.items():
            e = dict(m).get(aid, 0)
            if not e:
                out = add(out, Poly({m: c}))
                continue
            rest = Poly({tuple(x for x in m if x[0] != aid): c})
            if e < 0 and not val.t:
                return p
            out = add(out, W.mul(rest, W.pow(val, e)))
        return out

    # --------------------------------------------------------------- decisions
    def decide(self, c):
        if c is True or c is False:
            return c
        if self.pos < len(self.script):
            r = self.script[self.pos]
            self.pos += 1
            self.trace.append(r)
            if r[1] and self.loops_on:
                self.forked(c)
            self.ps.assume(c if r[0] else neg_cond(c)) if r[1] else None
            if not r[1]:
                self.ps.assume(c if r[0] else neg_cond(c)) if r[2] else None
            return r[0]
        q = self.ps.quick(c)
        if q is not None:
            self.trace.append((q, False, False))
            self.script = self.trace[:]
            self.pos = len(self.script)
            return q
        s1 = self.ps.sat([c])
        if s1 == 'unsat':
            if self.loops_on and self.ps.sat([neg_cond(c)]) == 'unsat':
                raise PathEnd()
            ent = (False, False, True)
        else:
            s2 = self.ps.sat([neg_cond(c)])
            if s2 == 'unsat':
                ent = (True, False, True)
            else:
                self.new_scripts.append(self.trace + [(False, True, True)])
                if self.loops_on:
                    self.forked(c)
                ent = (True, True, True)
        self.trace.append(ent)
        self.script = self.trace
        self.pos = len(self.script)
        self.ps.assume(c if ent[0] else neg_cond(c))
        return ent[0]

    def choose(self, n):
        """case split 0..n"""
        if self.pos < len(self.script):
            r = self.script[self.pos]
            self.pos += 1
            self.trace.append(r)
            return r[0]
        for k in range(1, n + 1):
            self.new_scripts.append(self.trace + [(k, True, False)])
        self.trace.append((0, True, False))
        self.script = self.trace
        self.pos = len(self.script)
        return 0

    # -------------------------------------------------------------- conversion
    def fconst(self, c):
        if c != c:
            return NAN
        if c == float('inf'):
            return PINF
        if c == float('-inf'):
            return NINF
        return snap(c, self.W)

    def operand(self, op, ty, fr):
        k = op[0]
        if k == 'l':
            try:
                return fr[op[1]]
            except KeyError:
                raise Unsupported('undefined local ' + op[1])
        if k == 'c':
            v = op[1]
            if type(v) is float:
                return self.fconst(v)
            if ty[0] == 'i' and ty[1] == 1:
                return bool(v)
            return v
        if k == 'g':
            return self.global_ptr(op[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.operand(o, t, fr) for t, o in op[1]]
        if k == 'bytes':
            return list(op[1])
        if k == 'gep':
            return self.gep(op[1], op[2], fr)
        if k == 'cast':
            return self.cast(op[1], op[2], self.operand(op[3], op[2], fr), op[4])
        if k == 'splat':
            return [self.operand(op[1], ty[2], fr)] * ty[1]
        raise Unsupported('operand %r' % (op,))

    def undef(self, ty):
        if ty[0] == 'st':
            return [self.undef(t) for t in ty[2]]
        if ty[0] in ('arr', 'tag', 'vec'):
            return [self.undef(ty[2]) for _ in range(ty[1])]
        return UNDEF

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k == 'f64':
            return ZERO
        if k == 'ptr':
            return NULL
        if k == 'st':
            return [self.zero(t) for t in ty[2]]
        if k in ('arr', 'tag', 'vec'):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero')

    def global_ptr(self, name):
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        o = self.globals.get(name)
        if o is None:
            t, v, const = self.m.global_init(name)
            if t == 'alias':
                return self.operand(v, ir.PTR, {})
            o = Obj(name, ir.sizeof(t))
            self.globals[name] = o
            if v is not None:
                self.store_val(o, 0, t, self.operand(v, t, {}))
            o.ro = const
        return Ptr(o, 0)

    # ------------------------------------------------------------------ memory
    def store_val(self, o, off, ty, v):
        k = ty[0]
        if k in ('st', 'arr', 'tag', 'vec'):
            n = len(ty[2]) if k == 'st' else ty[1]
            if k != 'st' and ty[2] == ('i', 8) and isinstance(v, list) and all(type(x) is int for x in v):
                for i, x in enumerate(v):
                    o.cells[off + i] = (1, x)
                return
            for i in range(n):
                fo, ft = ir.field_off(ty, i)
                self.store_val(o, off + fo, ft, v[i])
            return
        sz = ir.sizeof(ty)
        if v is UNDEF:
            self.clear(o, off, sz)
            return
        self.clear(o, off, sz)
        if isinstance(v, Partial):
            for i, b in enumerate(v.bs[:sz]):
                if b is not None:
                    o.cells[off + i] = (1, b)
            return
        if k == 'i' and isinstance(v, bool):
            v = int(v)
        o.cells[off] = (sz, v)

    def clear(self, o, off, sz):
        cells = o.cells
        if not cells:
            return
        for x in range(off - 15, off + sz):
            c = cells.get(x)
            if c is None or x + c[0] <= off:
                continue
            if x >= off and x + c[0] <= off + sz:
                del cells[x]
                continue
            # partial overlap: split concrete ints to bytes
            v = c[1]
            if type(v) is int:
                del cells[x]
                for i in range(c[0]):
                    b = x + i
                    if b < off or b >= off + sz:
                        cells[b] = (1, (v >> (8 * i)) & 255)
            else:
                del cells[x]
                for i in range(c[0]):
                    b = x + i
                    if b < off or b >= off + sz:
                        cells[b] = (1, Byte(v, c[0], i))

    def conv(self, v, ty):
        """convert stored value v to type"""
        k = ty[0]
        if isinstance(v, Partial):
            return v
        if v is UNDEF:
            return v
        if k == 'f64':
            if isinstance(v, (Poly, Special, PtrInt)):
                return v
            if isinstance(v, FBits):
                return v.v
            if isinstance(v, Ptr):
                return PtrInt(v)
            if type(v) is int:
                return self.fconst(struct.unpack('<d', struct.pack('<Q', v & M64))[0])
        elif k == 'i':
            if type(v) is int:
                v &= (1 << ty[1]) - 1
                if ty[1] == 1:
                    return bool(v & 1)
                return v
            if isinstance(v, bool):
                return v if ty[1] == 1 else int(v)
            if isinstance(v, (Poly, Special)):
                return FBits(v)
            if isinstance(v, Ptr):
                if v.obj is None and type(v.off) is int:
                    return v.off
                return PtrInt(v)
            if isinstance(v, FnPtr):
                return PtrInt(v)
            return v
        elif k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if isinstance(v, PtrInt):
                return v.p
            if type(v) is int:
                return Ptr(None, v)
        raise Unsupported('conv %r to %r' % (type(v).__name__, ty))

    def load_val(self, o, off, ty):
        k = ty[0]
        if k in ('st', 'arr', 'tag', 'vec'):
            n = len(ty[2]) if k == 'st' else ty[1]
            return [self.load_val(o, off + ir.field_off(ty, i)[0], ir.field_off(ty, i)[1]) for i in range(n)]
        sz = ir.sizeof(ty)
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.conv(c[1], ty)
        # compose from bytes
        if k == 'i' or k == 'f64' or k == 'ptr':
            bs = [None] * sz
            for x in range(off - 15, off + sz):
                c = o.cells.get(x)
                if c is None:
                    continue
                for b in range(max(x, off), min(x + c[0], off + sz)):
                    if type(c[1]) is int:
                        bs[b - off] = (c[1] >> (8 * (b - x))) & 255
                    elif isinstance(c[1], Byte):
                        bs[b - off] = c[1]
                    else:
                        bs[b - off] = Byte(c[1], c[0], b - x)
            return self.from_bytes(bs, ty)
        raise Unsupported('load %r' % (ty,))

    def from_bytes(self, bs, ty):
        k = ty[0]
        sz = len(bs)
        if all(b is None for b in bs):
            return UNDEF
        if all(type(b) is int for b in bs):
            return self.conv(sum(b << (8 * i) for i, b in enumerate(bs)), ty)
        b0 = bs[0]
        if isinstance(b0, Byte) and b0.n == sz and all(isinstance(b, Byte) and b.v is b0.v and b.n == sz and b.i == i
                                                       for i, b in enumerate(bs)):
            return self.conv(b0.v, ty)
        if k == 'i':
            if isinstance(b0, Byte) and b0.i == 0 and isinstance(b0.v, SymInt) and all(isinstance(b, Byte) and b.v is b0.v and b.i == i for i, b in enumerate(bs)):
                raise Unsupported('narrow load of symbolic int')
            return Partial(bs)
        return Partial(bs)

    def access(self, p, sz, what):
        """returns list-normalised (obj, off) with bounds check; off concrete or (idx, inner)"""
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %s' % (what, type(p).__name__))
        o = p.obj
        if o is None:
            raise Unsupported('%s through invalid pointer %r' % (what, p.off))
        if o.freed:
            raise Panic('use after free')
        return o

    def load(self, p, ty):
        sz = ir.sizeof(ty)
        o = self.access(p, sz, 'load')
        off = p.off
        if o.gen is not None:
            return self.load_arr(o, off, ty)
        if type(off) is not int:
            off = self.concretize(o, off, sz)
        if off < 0 or self.beyond(o, off + sz):
            raise Panic('out-of-bounds read')
        return self.load_val(o, off, ty)

    def store(self, p, ty, v):
        sz = ir.sizeof(ty)
        o = self.access(p, sz, 'store')
        off = p.off
        if o.ro:
            raise Unsupported('store to constant ' + o.name)
        if o.gen is not None:
            raise Unsupported('store into symbolic array')
        if type(off) is not int:
            off = self.concretize(o, off, sz)
        if off < 0 or self.beyond(o, off + sz):
            raise Panic('out-of-bounds write')
        self.store_val(o, off, ty, v)

    def beyond(self, o, end):
        if type(o.size) is int:
            return end > o.size
        return not self.decide(canon('le', sub(num(end), o.size)))

    def concretize(self, o, off, sz):
        for k in sorted(o.cells):
            if self.decide(canon('eq', sub(off, num(k)))):
                return k
        raise Unsupported('symbolic offset')

    def split_off(self, o, off):
        if type(off) is int:
            off = num(off)
        c = off.const()
        if type(c) is not int:
            raise Unsupported('offset')
        idx = {}
        for m, k in off.t.items():
            if m == ():
                continue
            if k % o.esz:
                raise Unsupported('stride')
            idx[m] = k // o.esz
        q, inner = divmod(c, o.esz)
        if q:
            idx[()] = q
        return Poly(idx), inner

    def load_arr(self, o, off, ty):
        idx, inner = self.split_off(o, off)
        if not self.decide(canon('le', neg(idx))):
            raise Panic('out-of-bounds read (index below 0)')
        if not self.decide(canon('lt', sub(idx, o.n))):
            raise Panic('out-of-bounds read (index at or above the length)')
        self.add_idx(idx, o.tag)
        return self.gen_load(o, idx, inner, ty)

    def gen_load(self, o, idx, inner, ty):
        if ty[0] in ('st', 'arr'):
            n = len(ty[2]) if ty[0] == 'st' else ty[1]
            r = []
            for i in range(n):
                fo, ft = ir.field_off(ty, i)
                r.append(self.gen_load(o, idx, inner + fo, ft))
            return r
        return self.conv(o.gen(idx, inner), ty)

    # --------------------------------------------------------------- arithmetic
    def gep(self, ty, ops, fr):
        p = self.operand(ops[0][1], ops[0][0], fr)
        if isinstance(p, FnPtr):
            return p
        if p is UNDEF:
            return UNDEF
        if isinstance(p, PtrInt):
            p = p.p
        off = p.off
        t = ty
        first = True
        for ot, o in ops[1:]:
            i = self.operand(o, ot, fr)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, BoolInt):
                i = int(self.decide(i.c))
            if type(i) is int:
                if i >= 1 << (ot[1] - 1):
                    i -= 1 << ot[1]
                if first:
                    d = i * ir.sizeof(t)
                else:
                    d, t = ir.field_off(t, i)
            elif isinstance(i, SymInt):
                if first:
                    d = scale(i.p, ir.sizeof(t))
                elif t[0] == 'arr':
                    t = t[2]
                    d = scale(i.p, ir.sizeof(t))
                else:
                    raise Unsupported('gep')
            else:
                raise Unsupported('gep index %r' % (i,))
            off = self.off_add(off, d)
            first = False
        return Ptr(p.obj, off)

    def off_add(self, a, b):
        if type(a) is int and type(b) is int:
            return a + b
        r = add(num(a) if type(a) is int else a, num(b) if type(b) is int else b)
        return r.const() if r.is_const() else r

    def fadd(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return NAN
            if isinstance(a, Special) and isinstance(b, Special):
                return a if a is b else NAN
            return a if isinstance(a, Special) else b
        return add(a, b)

    def fneg(self, a):
        if isinstance(a, Special):
            return {NAN: NAN, PINF: NINF, NINF: PINF}[a]
        return neg(a)

    def fmul(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return NAN
            sa, sb = self.fsign(a), self.fsign(b)
            if sa == 0 or sb == 0:
                return NAN
            return PINF if sa * sb > 0 else NINF
        try:
            return self.W.mul(a, b)
        except TermError as e:
            raise Unsupported(str(e))

    def fsign(self, a):
        if a is PINF:
            return 1
        if a is NINF:
            return -1
        if self.decide(canon('eq', a)):
            return 0
        return -1 if self.decide(canon('lt', a)) else 1

    def fdiv(self, a, b):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(b, Special):
            return NAN if isinstance(a, Special) else ZERO
        if self.decide(canon('eq', b)):
            self.assumed.add('division by zero: the sign of a zero divisor is taken as +0')
            if isinstance(a, Special):
                return a
            s = self.fsign(a)
            return NAN if s == 0 else (PINF if s > 0 else NINF)
        if isinstance(a, Special):
            return a if self.fsign(b) > 0 else self.fneg(a)
        try:
            return self.W.div(a, b)
        except TermError as e:
            raise Unsupported(str(e))

    def fsqrt(self, a):
        if isinstance(a, Special):
            return NAN if a is NINF else a
        W = self.W
        if not a.t:
            return ZERO
        q = self.ps.quick(canon('lt', a))
        if q is None:
            # try after clearing
            if self.decide(canon('lt', a)):
                return NAN
        elif q:
            return NAN
        return self.sqrt_term(a)

    def sqrt_term(self, a):
        """sqrt of a value known to be >= 0"""
        W = self.W
        outer = ONE
        for _ in range(12):
            if not a.t:
                return ZERO
            # clear inverse atoms / negative exponents by even powers
            lo = {}
            for m in a.t:
                for aid, e in m:
                    if W.atoms[aid].kind == 'inv' and e > 0:
                        lo[aid] = max(lo.get(aid, 0), e)
            ch = False
            for aid, e in lo.items():
                k = (e + 1) // 2
                f = W.pow(W.atoms[aid].args[0], 1)
                # sqrt(x) = sqrt(x f^2k)/|f|^k
                a = W.mul(a, W.pow(f, 2 * k))
                s = self.abs_term(f)
                outer = W.mul(outer, W.pow(W.inv(s), k))
                ch = True
            if any(e < 0 for m in a.t for aid, e in m):
                neg_ = {}
                for m in a.t:
                    for aid, e in m:
                        if e < 0:
                            neg_[aid] = min(neg_.get(aid, 0), e)
                for aid, e in neg_.items():
                    k = (-e + 1) // 2
                    v = W.poly(W.atoms[aid])
                    a = W.mul(a, W.pow(v, 2 * k))
                    outer = W.mul(outer, W.pow(W.inv(self.abs_term(v)), k))
                ch = True
            b = W.reduce(a)
            if len(b.t) <= len(a.t) and b != a:
                a = b
                ch = True
            # monomial content with even exponents
            if a.t and not a.is_const():
                c, mono, prim = W.content(a)
                ev = tuple((x, e // 2 * 2) for x, e in mono if e >= 2 or e <= -2)
                if ev:
                    a = Poly({mono_mul(m, mono_pow(ev, -1)): cc for m, cc in a.t.items()})
                    for x, e in ev:
                        outer = W.mul(outer, W.pow(self.abs_term(W.poly(W.atoms[x])), e // 2))
                    ch = True
            if not ch:
                break
        if not a.t:
            return ZERO
        r = W.poly_sqrt(a)
        if r is None and len(a.t) > 1:
            # scale out the leading coefficient if it is a perfect square
            r = None
        if r is not None:
            return W.mul(outer, self.abs_term(r))
        # constant factor: sqrt(c*p), pull out rational square content
        if not a.is_const():
            c, mono, prim = W.content(a)
            c = abs(Fraction(c))
            sc = W.poly_sqrt(num(c))
            if sc is not None:
                a = scale(a, 1 / c)
                outer = W.mul(outer, sc)
        at = W.mk('sqrt', (a,))
        return W.mul(outer, W.poly(at))

    def abs_term(self, p):
        s = self.ps.sign(p)
        if s in ('+', '0+', '0'):
            return p
        if s in ('-', '0-'):
            return neg(p)
        if self.decide(canon('lt', p)):
            return neg(p)
        return p

    # ---- elementary functions
    def angle_parts(self, t):
        """split t into quarter turns k and list of (monomial poly) parts"""
        W = self.W
        k = 0
        parts = []
        pim = ((W.PI.id, 1),)
        for m, c in sorted(t.t.items()):
            if m == pim:
                q = Fraction(c) * 2
                f = math.floor(q)
                k += f
                r = q - f
                if r:
                    parts.append(Poly({m: norm_c(Fraction(r) / 2)}))
            else:
                parts.append(Poly({m: c}))
        return k % 4, parts

    def sincos1(self, p):
        """(sin, cos) of a one-term angle"""
        W = self.W
        (m, c), = p.t.items()
        s = 1
        if c < 0:
            s = -1
            p = neg(p)
            c = -c
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = W.atoms[m[0][0]]
            if a.kind in ('asin', 'acos'):
                u = a.args[0]
                w = self.sqrt_term(sub(ONE, W.mul(u, u)))
                sn, cn = (u, w) if a.kind == 'asin' else (w, u)
                return (sn if s > 0 else neg(sn)), cn
            if a.kind == 'atan':
                u = a.args[0]
                h = W.inv(self.sqrt_term(add(ONE, W.mul(u, u))))
                sn = W.mul(u, h)
                return (sn if s > 0 else neg(sn)), h
            if a.kind == 'atan2':
                y, x = a.args
                h = W.inv(self.sqrt_term(add(W.mul(x, x), W.mul(y, y))))
                sn = W.mul(y, h)
                return (sn if s > 0 else neg(sn)), W.mul(x, h)
        if m == ((W.PI.id, 1),):
            # special angles
            for fr, (sv2, cv2) in ((Fraction(1, 6), (Fraction(1, 4), Fraction(3, 4))), (Fraction(1, 4), (Fraction(1, 2), Fraction(1, 2))), (Fraction(1, 3), (Fraction(3, 4), Fraction(1, 4)))):
                if c == fr:
                    sn, cn = self.sqrt_term(num(sv2)), self.sqrt_term(num(cv2))
                    return (sn if s > 0 else neg(sn)), cn
        sa = W.mk('sin', (p,))
        ca = W.mk('cos', (p,))
        sn = W.poly(sa)
        return (sn if s > 0 else neg(sn)), W.poly(ca)

    def sincos(self, t):
        W = self.W
        k, parts = self.angle_parts(t)
        sn, cn = ZERO, ONE
        for p in parts:
            s, c = self.sincos1(p)
            sn, cn = add(W.mul(sn, c), W.mul(cn, s)), sub(W.mul(cn, c), W.mul(sn, s))
        for _ in range(k):
            sn, cn = cn, neg(sn)
        return sn, cn

    def ffun(self, name, a):
        W = self.W
        if isinstance(a, Special):
            if name == 'atan' and a is not NAN:
                h = scale(W.PIp, Fraction(1, 2))
                return h if a is PINF else neg(h)
            if name == 'exp' and a is not NAN:
                return PINF if a is PINF else ZERO
            return NAN
        if name in ('sin', 'cos'):
            s, c = self.sincos(a)
            return s if name == 'sin' else c
        if name == 'tan':
            s, c = self.sincos(a)
            return self.fdiv(s, c)
        if name in ('asin', 'acos'):
            if self.decide(canon('lt', sub(ONE, W.mul(a, a)))):
                return NAN
            if a.is_const():
                c = a.const()
                tab = {0: Fraction(0), 1: Fraction(1, 2), -1: Fraction(-1, 2), Fraction(1, 2): Fraction(1, 6)}
                if c in tab:
                    v = tab[c]
                    if name == 'acos':
                        v = Fraction(1, 2) - v
                    return scale(W.PIp, v)
            return W.poly(W.mk(name, (a,)))
        if name == 'atan':
            if a.is_const():
                c = a.const()
                if c in (0, 1, -1):
                    return scale(W.PIp, Fraction(c, 4))
            return W.poly(W.mk('atan', (a,)))
        if name == 'exp':
            if not a.t:
                return ONE
            return W.poly(W.mk('exp', (a,)))
        if name in ('ln', 'log'):
            if a == ONE:
                return ZERO
            if not self.decide(canon('lt', neg(a))):
                return NINF if self.decide(canon('eq', a)) else NAN
            return W.poly(W.mk('ln', (a,)))
        raise Unsupported('function ' + name)

    def fatan2(self, y, x):
        if isinstance(y, Special) or isinstance(x, Special):
            if y is NAN or x is NAN:
                return NAN
            raise Unsupported('atan2 of infinity')
        W = self.W
        if self.decide(canon('lt', neg(x))):
            return self.ffun('atan', W.div(y, x))
        if self.decide(canon('eq', x)):
            s = self.fsign(y)
            return scale(W.PIp, Fraction(s, 2))
        at = self.ffun('atan', W.div(y, x))
        if self.decide(canon('lt', y)):
            return sub(at, W.PIp)
        return add(at, W.PIp)

    def fpow(self, b, e):
        W = self.W
        if isinstance(b, Special) or isinstance(e, Special):
            if b is NAN or e is NAN:
                return NAN
            raise Unsupported('pow of infinity')
        if e.is_const():
            c = e.const()
            if type(c) is int and abs(c) <= 16:
                return self.fpowi(b, c)
            if c == Fraction(1, 2):
                return self.fsqrt(b)
        if b == ONE:
            return ONE
        if self.decide(canon('lt', neg(b))):
            return W.poly(W.mk('pow', (b, e)))
        if self.decide(canon('eq', b)):
            if self.decide(canon('lt', e)):
                return PINF
            return ONE if self.decide(canon('eq', e)) else ZERO
        self.assumed.add('pow of a negative base with non-literal exponent is read as NaN')
        return NAN

    def fpowi(self, b, n):
        if n == 0:
            return ONE
        if isinstance(b, Special):
            if b is NAN:
                return NAN
            if n < 0:
                return ZERO
            return PINF if (b is PINF or n % 2 == 0) else NINF
        if n < 0:
            return self.fdiv(ONE, self.fpowi(b, -n))
        try:
            return self.W.pow(b, n)
        except TermError as e:
            raise Unsupported(str(e))

    # ---- comparisons
    def fcmp(self, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undef')
        unord = a is NAN or b is NAN
        if pred == 'ord':
            return not unord
        if pred == 'uno':
            return unord
        if unord:
            return pred[0] == 'u'
        op = pred[1:]
        if isinstance(a, Special) or isinstance(b, Special):
            va = 1 if a is PINF else -1 if a is NINF else 0
            vb = 1 if b is PINF else -1 if b is NINF else 0
            return {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[op]
        return self.cmp_poly(op, a, b)

    def smaller(self, p):
        if len(p.t) > 2:
            try:
                q = self.W.reduce(p)
            except TermError:
                return p
            if len(q.t) < len(p.t):
                return q
        return p

    def cmp_poly(self, op, a, b):
        if op == 'gt' or op == 'ge':
            a, b = b, a
            op = 'lt' if op == 'gt' else 'le'
        return canon(op, self.smaller(sub(a, b)))

    def ipoly(self, v):
        if isinstance(v, bool):
            v = int(v)
        if type(v) is int:
            return num(v)
        if isinstance(v, BoolInt):
            return num(int(self.decide(v.c)))
        return v.p

    def icmp(self, pred, ty, a, b):
        if isinstance(a, StrOrder) or isinstance(b, StrOrder):
            if pred in ('eq', 'ne') and (a == 0 or b == 0):
                return pred == 'ne'
            raise Unsupported('order of an arbitrary string')
        if ty == ir.PTR or isinstance(a, (Ptr, FnPtr, PtrInt)) or isinstance(b, (Ptr, FnPtr, PtrInt)):
            return self.pcmp(pred, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):   # symbolic booleans
            if pred in ('eq', 'ne'):
                if isinstance(a, (bool, int)):
                    a, b = b, a
                if isinstance(b, (bool, int)):
                    r = a if b else neg_cond(a)
                    return r if pred == 'eq' else neg_cond(r)
                a = self.decide(a)
                b = self.decide(b)
                return (a == b) == (pred == 'eq')
            a = int(self.decide(a)) if isinstance(a, tuple) else a
            b = int(self.decide(b)) if isinstance(b, tuple) else b
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.bitcmp(pred, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a2 = int(a) if isinstance(a, bool) else a
        b2 = int(b) if isinstance(b, bool) else b
        if type(a2) is int and type(b2) is int:
            w = ty[1]
            if pred[0] == 's':
                h = 1 << (w - 1)
                if a2 >= h:
                    a2 -= 1 << w
                if b2 >= h:
                    b2 -= 1 << w
            op = pred if pred in ('eq', 'ne') else pred[1:]
            return {'eq': a2 == b2, 'ne': a2 != b2, 'lt': a2 < b2, 'le': a2 <= b2, 'gt': a2 > b2, 'ge': a2 >= b2}[op]
        if isinstance(a2, Masked) or isinstance(b2, Masked):
            raise Unsupported('masked compare')
        pa, pb = self.ipoly(a2), self.ipoly(b2)
        op = pred
        if pred not in ('eq', 'ne'):
            op = pred[1:]
            if pred[0] == 's':
                # values are assumed below 2^63 when symbolic; convert constants
                if type(a2) is int and a2 >= 1 << (ty[1] - 1):
                    pa = num(a2 - (1 << ty[1]))
                if type(b2) is int and b2 >= 1 << (ty[1] - 1):
                    pb = num(b2 - (1 << ty[1]))
        return self.icanon(op, pa, pb)

    def icanon(self, op, pa, pb):
        # integers: a < b  <=>  a - b + 1 <= 0 ; keep as le with integral coefficients
        if op == 'eq':
            return canon('eq', sub(pa, pb))
        if op == 'ne':
            return canon('ne', sub(pa, pb))
        if op == 'lt':
            return canon('le', add(sub(pa, pb), ONE))
        if op == 'le':
            return canon('le', sub(pa, pb))
        if op == 'gt':
            return canon('le', add(sub(pb, pa), ONE))
        return canon('le', sub(pb, pa))

    def bitcmp(self, pred, a, b):
        if isinstance(a, FBits) and isinstance(b, int):
            # sign test / zero test
            if pred == 'slt' and b == 0:
                self.assumed.add('sign-bit test of a real value is read as value < 0')
                if isinstance(a.v, Special):
                    return a.v is NINF
                return canon('lt', a.v)
            if pred == 'sgt' and b == M64:
                if isinstance(a.v, Special):
                    return a.v is not NINF
                return neg_cond(canon('lt', a.v))
        raise Unsupported('bit-pattern comparison of floats')

    def pcmp(self, pred, a, b):
        def norm(x):
            if isinstance(x, PtrInt):
                x = x.p
            if type(x) is int:
                x = Ptr(None, x)
            return x
        a, b = norm(a), norm(b)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
        if a is UNDEF or b is UNDEF:
            raise Unsupported('pointer compare undef')
        if a.obj is b.obj:
            x, y = a.off, b.off
            if type(x) is int and type(y) is int:
                op = pred if pred in ('eq', 'ne') else pred[1:]
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
            px = num(x) if type(x) is int else x
            py = num(y) if type(y) is int else y
            op = pred if pred in ('eq', 'ne') else pred[1:]
            d = sub(px, py)
            # divide by common integer content
            return self.icanon(op, *self.content_split(d))
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        if a.obj is None or b.obj is None:
            # real pointers are larger than small dangling constants
            op = pred[1:]
            return (op in ('gt', 'ge')) == (b.obj is None)
        raise Unsupported('ordering of unrelated pointers')

    def content_split(self, d):
        g = 0
        for c in d.t.values():
            g = math.gcd(g, int(c))
        if g > 1:
            d = scale(d, Fraction(1, g))
        return d, ZERO

    def as_bytes(self, v, n):
        if v is UNDEF:
            return [None] * n
        if type(v) is int:
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if isinstance(v, Partial):
            return (v.bs + [None] * n)[:n]
        return [Byte(v, n, i) for i in range(n)]

    def bytewise(self, op, ty, a, b):
        """shifts by whole bytes and masks of whole bytes, on values that are not concrete"""
        if ty[1] % 8:
            return None
        n = ty[1] // 8
        x = self.as_bytes(a, n)
        if op in ('shl', 'lshr'):
            if type(b) is not int or b % 8 or b >= ty[1]:
                return None
            k = b // 8
            return self.from_bytes([0] * k + x[:n - k] if op == 'shl' else x[k:] + [0] * k, ty)
        y = self.as_bytes(b, n)
        out = []
        for p, q in zip(x, y):
            if type(p) is int and type(q) is int:
                out.append(p & q if op == 'and' else p | q)
            elif op == 'or' and (p == 0 or q == 0):
                out.append(q if p == 0 else p)
            elif op == 'and' and (p in (0, 255) or q in (0, 255)):
                c, o = (p, q) if type(p) is int else (q, p)
                out.append(0 if c == 0 else o)
            else:
                return None
        return self.from_bytes(out, ty) if op in ('and', 'or') else None

    # ---- integer ops
    def ibin(self, op, ty, a, b):
        w = ty[1]
        mask = (1 << w) - 1
        if w == 1 or isinstance(a, (bool, tuple)) or isinstance(b, (bool, tuple)):
            if w == 1:
                return self.bbin(op, a, b)
            a = int(self.decide(a)) if isinstance(a, (tuple, bool)) else a
            b = int(self.decide(b)) if isinstance(b, (tuple, bool)) else b
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask
            if op == 'lshr':
                return a >> b
            if op in ('udiv', 'urem'):
                if b == 0:
                    raise Panic('division by zero')
                return a // b if op == 'udiv' else a % b
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> b) & mask
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & mask
            if op == 'srem':
                q = abs(sa) % abs(sb)
                return (-q if sa < 0 else q) & mask
        if a is UNDEF or b is UNDEF or isinstance(a, Partial) or isinstance(b, Partial):
            r = self.bytewise(op, ty, a, b)
            if r is not None:
                return r
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrarith(op, a, b)
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.bitop(op, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
            pa, pb = self.ipoly(a), self.ipoly(b)
            if op == 'add':
                if type(b) is int and b >> (w - 1):
                    return self.symsub(pa, num((1 << w) - b), w)
                if type(a) is int and a >> (w - 1):
                    return self.symsub(pb, num((1 << w) - a), w)
                return self.symret(add(pa, pb))
            if op == 'sub':
                return self.symsub(pa, pb, w)
            if op == 'mul' and (type(a) is int or type(b) is int):
                return self.symret(self.W.mul(pa, pb))
            if op == 'shl' and type(b) is int:
                return self.symret(scale(pa, 1 << b))
            if op in ('udiv', 'lshr', 'sdiv', 'ashr') and type(b) is int:
                k = b if op in ('udiv', 'sdiv') else 1 << b
                if all(type(c) is int and c % k == 0 for c in pa.t.values()):
                    return self.symret(scale(pa, Fraction(1, k)))
                # quotient as a fresh integer with k*q <= a < k*q+k
                q = self.W.var('q!%d!%s' % (k, hash(pa)), 'ivar', True)
                self.ps.assume(canon('le', sub(scale(q, k), pa)))
                self.ps.assume(canon('le', add(sub(pa, scale(q, k)), num(1 - k))))
                return self.symret(q)
            if op == 'and' and type(b) is int and (b + 1) & b == 0:
                if all(type(c) is int and c % (b + 1) == 0 for c in pa.t.values()):
                    return 0
        r = self.bytewise(op, ty, a, b)
        if r is not None:
            return r
        raise Unsupported('integer %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def symret(self, p):
        if p.is_const():
            return p.const()
        return SymInt(p)

    def symsub(self, pa, pb, w):
        d = sub(pa, pb)
        if d.is_const():
            return int(d.const()) & ((1 << w) - 1)
        if self.decide(canon('lt', d)):
            # wraps around
            return SymInt(add(d, num(1 << w)))
        return SymInt(d)

    def bbin(self, op, a, b):
        a = bool(a) if isinstance(a, int) else a
        b = bool(b) if isinstance(b, int) else b
        if op == 'and':
            return conj(a, b)
        if op == 'or':
            return disj(a, b)
        if op in ('xor', 'add', 'sub'):
            if b is True:
                return neg_cond(a)
            if b is False:
                return a
            if a is True:
                return neg_cond(b)
            if a is False:
                return b
            return self.decide(a) != self.decide(b)
        if op == 'mul':
            return conj(a, b)
        raise Unsupported('bool ' + op)

    def ptrarith(self, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.obj is b.p.obj:
            x, y = a.p.off, b.p.off
            if type(x) is int and type(y) is int:
                return (x - y) & M64
            return self.symret(sub(num(x) if type(x) is int else x, num(y) if type(y) is int else y))
        if op == 'add':
            if isinstance(b, PtrInt):
                a, b = b, a
            if type(b) is int:
                if b >> 63:
                    b -= 1 << 64
                return PtrInt(Ptr(a.p.obj, self.off_add(a.p.off, b)))
            if isinstance(b, SymInt):
                return PtrInt(Ptr(a.p.obj, self.off_add(a.p.off, b.p)))
        if op == 'sub' and type(b) is int:
            return PtrInt(Ptr(a.p.obj, self.off_add(a.p.off, -b)))
        if op == 'and' and type(b) is int and isinstance(a, PtrInt):
            off = a.p.off if not isinstance(a.p, FnPtr) else 0
            if b < 16:
                if type(off) is int:
                    return off & b
                if all(c % (b + 1) == 0 for c in off.t.values()):
                    return 0
        raise Unsupported('pointer arithmetic ' + op)

    def bitop(self, op, a, b):
        if isinstance(b, FBits):
            a, b = b, a
        if isinstance(a, Partial) and op == 'lshr' and type(b) is int and b % 8 == 0:
            return a.shift(self, b, ('i', 8 * len(a.bs)))
        if isinstance(a, FBits) and type(b) is int:
            if op == 'and' and b == (1 << 63) - 1:
                return FBits(self.fabs(a.v))
            if op == 'xor' and b == 1 << 63:
                return FBits(self.fneg(a.v))
            if op == 'lshr' and b == 63:
                self.assumed.add('sign-bit test of a real value is read as value < 0')
                return int(self.decide(canon('lt', a.v))) if not isinstance(a.v, Special) else int(a.v is NINF)
        raise Unsupported('bit operation on a float: %s %r' % (op, b))

    def fabs(self, v):
        if isinstance(v, Special):
            return NAN if v is NAN else PINF
        return self.abs_term(v)

    def cast(self, op, t, v, t2):
        if op == 'freeze':
            return v
        if v is UNDEF:
            return UNDEF
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, (tuple, bool)) and op in ('zext', 'sext'):
                if isinstance(v, tuple):
                    return BoolInt(v) if op == 'zext' else ((1 << t2[1]) - 1 if self.decide(v) else 0)
                if op == 'zext':
                    return int(v)
                return (1 << t2[1]) - 1 if v else 0
            if type(v) is int:
                if op == 'sext' and v >> (t[1] - 1):
                    v -= 1 << t[1]
                v &= (1 << t2[1]) - 1
                return bool(v) if t2[1] == 1 else v
            if isinstance(v, BoolInt):
                if t2[1] == 1:
                    return v.c
                return v
            if isinstance(v, SymInt) and op != 'trunc':
                return v
            if isinstance(v, SymInt) and op == 'trunc' and t2[1] >= 32:
                self.assumed.add('symbolic lengths fit the narrower integer type')
                return v
            if isinstance(v, Partial):
                if op == 'zext':
                    return Partial(v.bs + [0] * (ir.sizeof(t2) - len(v.bs)))
                return v.trunc(self, t2)
        if op in ('ptrtoint', 'inttoptr', 'bitcast') and isinstance(v, Partial):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if type(v) is int:
                return Ptr(None, v)
        if op == 'bitcast':
            if t2 == ir.F64:
                return self.conv(v, t2)
            if t == ir.F64:
                return v if isinstance(v, PtrInt) else FBits(v)
            return v
        if op in ('uitofp', 'sitofp'):
            if type(v) is int:
                if op == 'sitofp' and v >> (t[1] - 1):
                    v -= 1 << t[1]
                return num(v)
            if isinstance(v, SymInt):
                return v.p
            if isinstance(v, (bool, tuple)):
                return ONE if self.decide(v) else ZERO
        raise Unsupported('cast %s of %s' % (op, type(v).__name__))

    # ------------------------------------------------------------- interpreter
    def call_ir(self, name, args):
        fn = self.m.func(name)
        if fn is None:
            raise Unsupported('no body for ' + name)
        fr = {}
        for (t, p), v in zip(fn.params, args):
            fr[p] = v
        return self.exec_fn(fn, fr)

    def exec_fn(self, fn, fr):
        blocks = fn.blocks
        cur = fn.order[0]
        prev = None
        loops = None
        ls = {}
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            while True:
                ins_list = blocks[cur]
                if self.loops_on:
                    if loops is None:
                        loops = loops_of(fn)
                    if ls:
                        for h in [h for h in ls if cur not in loops[h]]:
                            self.loop_exit(ls.pop(h))
                # phis in parallel
                i = 0
                if ins_list and ins_list[0][0] == 'phi':
                    vals = []
                    while ins_list[i][0] == 'phi':
                        _, res, t, inc = ins_list[i]
                        vals.append((res, self.operand(inc[prev], t, fr)))
                        i += 1
                    for r, v in vals:
                        fr[r] = v
                if loops is not None and cur in loops and self.loops_on:
                    self.at_header(fn, cur, prev, fr, [x[1] for x in ins_list[:i]], ls, loops[cur])
                n = len(ins_list)
                self.steps += n
                if self.steps > self.max_steps:
                    raise Budget('too many steps')
                while i < n:
                    ins = ins_list[i]
                    op = ins[0]
                    if op == 'call':
                        v = self.do_call(ins, fr, ins_list, i)
                        if ins[1]:
                            fr[ins[1]] = v
                    elif op == 'load':
                        fr[ins[1]] = self.load(self.operand(ins[3], ir.PTR, fr), ins[2])
                    elif op == 'store':
                        self.store(self.operand(ins[3], ir.PTR, fr), ins[1], self.operand(ins[2], ins[1], fr))
                    elif op == 'gep':
                        fr[ins[1]] = self.gep(ins[2], ins[3], fr)
                    elif op == 'bin':
                        fr[ins[1]] = self.binop(ins[2], ins[3], self.operand(ins[4], ins[3], fr), self.operand(ins[5], ins[3], fr))
                    elif op == 'icmp':
                        fr[ins[1]] = self.icmp2(ins[2], ins[3], self.operand(ins[4], ins[3], fr), self.operand(ins[5], ins[3], fr))
                    elif op == 'fcmp':
                        fr[ins[1]] = self.fcmp(ins[2], self.operand(ins[4], ins[3], fr), self.operand(ins[5], ins[3], fr))
                    elif op == 'cbr':
                        c = self.operand(ins[1], ('i', 1), fr)
                        if c is UNDEF:
                            raise Unsupported('branch on undef')
                        prev = cur
                        cur = ins[2] if self.decide(c) else ins[3]
                        break
                    elif op == 'br':
                        prev = cur
                        cur = ins[1]
                        break
                    elif op == 'select':
                        c = self.operand(ins[3], ins[2], fr)
                        a = self.operand(ins[5], ins[4], fr)
                        b = self.operand(ins[6], ins[4], fr)
                        fr[ins[1]] = self.select(c, ins[4], a, b)
                    elif op == 'ret':
                        return self.operand(ins[2], ins[1], fr) if ins[2] is not None else None
                    elif op == 'fneg':
                        v = self.operand(ins[3], ins[2], fr)
                        fr[ins[1]] = self.fneg(v) if not isinstance(v, list) else [self.fneg(x) for x in v]
                    elif op == 'cast':
                        fr[ins[1]] = self.cast(ins[2], ins[3], self.operand(ins[4], ins[3], fr), ins[5])
                    elif op == 'alloca':
                        fr[ins[1]] = Ptr(Obj(ins[1], ir.sizeof(ins[2])), 0)
                    elif op == 'extractvalue':
                        v = self.operand(ins[3], ins[2], fr)
                        for k in ins[4]:
                            v = UNDEF if v is UNDEF else v[k]
                        fr[ins[1]] = v
                    elif op == 'insertvalue':
                        v = self.operand(ins[3], ins[2], fr)
                        x = self.operand(ins[5], ins[4], fr)
                        fr[ins[1]] = insert_at(v, ins[6], x)
                    elif op == 'switch':
                        v = self.operand(ins[2], ins[1], fr)
                        prev = cur
                        cur = self.switch(v, ins)
                        break
                    elif op == 'unreachable':
                        raise Unsupported('reached unreachable in ' + fn.name)
                    else:
                        raise Unsupported('instruction %s in %s: %s' % (op, fn.name, ins[2:] if op == 'unsupported' else ''))
                    i += 1
                else:
                    raise Unsupported('block fell through')
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = '%s [%s]: %s' % (self.dem.get(fn.name, fn.name), cur, str(ins)[:200])
                e.vals = [str(fr.get(x))[:80] for x in ins[1:] if isinstance(x, str) and x in fr]
            raise
        finally:
            self.depth -= 1

    def icmp2(self, pred, ty, a, b):
        if isinstance(a, BoolInt) or isinstance(b, BoolInt):
            if isinstance(b, BoolInt):
                a, b = b, a
                sw = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}
                pred = sw.get(pred, pred)
            if isinstance(b, BoolInt):
                b = int(self.decide(b.c))
            if type(b) is int:
                t1 = self.icmp(pred, ty, 1, b)
                t0 = self.icmp(pred, ty, 0, b)
                if t1 == t0:
                    return t1
                return a.c if t1 else neg_cond(a.c)
        return self.icmp(pred, ty, a, b)

    def switch(self, v, ins):
        if isinstance(v, BoolInt):
            v = int(self.decide(v.c))
        if isinstance(v, tuple):
            v = int(self.decide(v))
        if isinstance(v, bool):
            v = int(v)
        if type(v) is int:
            for k, lab in ins[4]:
                if k == v:
                    return lab
            return ins[3]
        if isinstance(v, SymInt):
            for k, lab in ins[4]:
                if self.decide(canon('eq', sub(v.p, num(k)))):
                    return lab
            return ins[3]
        raise Unsupported('switch on %s' % type(v).__name__)

    def select(self, c, ty, a, b):
        if isinstance(c, list):
            return [self.select(x, ty[2], y, z) for x, y, z in zip(c, a, b)]
        if c is UNDEF:
            return UNDEF
        if isinstance(c, tuple):
            if ty == ('i', 1):
                # boolean select: c ? a : b
                if a is True:
                    return disj(c, b) if not isinstance(b, Undef) else b
                if b is False:
                    return conj(c, a) if not isinstance(a, Undef) else a
                if a is False:
                    return conj(neg_cond(c), b)
                if b is True:
                    return disj(neg_cond(c), a)
            if ty[0] == 'i' and type(a) is int and type(b) is int and a in (0, 1) and b in (0, 1) and a != b:
                return BoolInt(c if a else neg_cond(c))
            if not isinstance(a, list) and not isinstance(a, (Poly,)) and type(a) is type(b) and a == b:
                return a
            if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
                return a
        return a if self.decide(c) else b

    def binop(self, op, ty, a, b):
        if ty[0] == 'vec':
            return [self.binop(op, ty[2], x, y) for x, y in zip(a, b)]
        if op[0] == 'f' and ty[0] in ('f64', 'f32'):
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if op == 'fadd':
                return self.fadd(a, b)
            if op == 'fsub':
                return self.fadd(a, self.fneg(b))
            if op == 'fmul':
                return self.fmul(a, b)
            if op == 'fdiv':
                return self.fdiv(a, b)
            raise Unsupported(op)
        if isinstance(a, BoolInt) or isinstance(b, BoolInt):
            a = int(self.decide(a.c)) if isinstance(a, BoolInt) else a
            b = int(self.decide(b.c)) if isinstance(b, BoolInt) else b
        return self.ibin(op, ty, a, b)

    # -------------------------------------------------------------------- calls
    def do_call(self, ins, fr, ins_list, i):
        _, res, rty, callee, cargs = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            f = self.operand(callee, ir.PTR, fr)
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call through %s' % type(f).__name__)
            name = f.name
        args = [self.operand(o, t, fr) if t != ('md',) else None for t, o in cargs]
        return self.invoke(name, args, rty, cargs, ins_list, i)

    def invoke(self, name, args, rty, cargs=None, ins_list=None, i=0):
        if name.startswith('@llvm.'):
            return self.intrinsic(name, args, rty, cargs)
        if name.startswith('@vf_'):
            return getattr(self, 'rt_' + name[4:])(*args)
        d = self.dem.get(name, name)
        st = self.stubs.get(d)
        if st is not None:
            self.called.add('contract of ' + d)
            saved = self.stubs
            self.stubs = {}
            try:
                return self.call_ir(st, args)
            finally:
                self.stubs = saved
        m = MODELS.get(name) or self.model_for(d, name)
        if m is not None:
            return m(self, args)
        fn = self.m.func(name)
        if fn is not None:
            if d.startswith('<sim') or d.startswith('sim'):
                self.called.add(d)
            if len(fn.params) != len(args):
                raise Unsupported('arity of ' + name)
            return self.call_ir(name, args)
        base = name[1:]
        if base in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log'):
            return self.ffun(base, args[0])
        if base == 'atan2':
            return self.fatan2(args[0], args[1])
        if base == 'hypot':
            return self.fsqrt(self.fadd(self.fmul(args[0], args[0]), self.fmul(args[1], args[1])))
        if base == 'cbrt':
            raise Unsupported('cbrt')
        if base == 'pow':
            return self.fpow(args[0], args[1])
        if base in ('memcmp', 'bcmp'):
            return self.memcmp(args[0], args[1], args[2])
        # an external function that does not return: a panic
        if ins_list is not None and i + 1 < len(ins_list) and ins_list[i + 1][0] == 'unreachable':
            raise Panic(self.panic_text(d, args))
        raise Unsupported('external function ' + d)

    def panic_text(self, d, args):
        t = d
        for a in args:
            if isinstance(a, Ptr) and a.obj is not None and type(a.off) is int:
                try:
                    o = a.obj
                    bs = bytes(o.cells[k][1] for k in range(a.off, o.size) if k in o.cells and o.cells[k][0] == 1)
                    if bs:
                        t += ': ' + bs.decode('utf8', 'replace')[:120]
                        break
                except Exception:
                    pass
        return t

    def model_for(self, d, name):
        for pat, f in MODEL_PATS:
            if pat in d:
                MODELS[name] = f
                return f
        return None

    def memcmp(self, a, b, n):
        n = self.known_int(n)
        for x, y in ((a, b), (b, a)):
            st = self.strings.get(id(x.obj)) if isinstance(x, Ptr) else None
            if st is not None and n != 0:
                if x.off != 0:
                    raise Unsupported('comparison of a part of an arbitrary string')
                return self.str_compare(st, y, n)
        if type(n) is not int:
            raise Unsupported('memcmp of symbolic length')
        for k in range(n):
            x = self.load_val(a.obj, a.off + k, ('i', 8))
            y = self.load_val(b.obj, b.off + k, ('i', 8))
            if type(x) is not int or type(y) is not int:
                raise Unsupported('memcmp of symbolic bytes')
            if x != y:
                return (1 if x > y else 0xffffffff)
        return 0

    def memcpy(self, d, s, n):
        if isinstance(n, SymInt):
            if self.loops_on and self.decide(canon('le', n.p)):
                return
            so, do = s.obj, d.obj
            if so is None or do is None:
                raise Unsupported('memcpy through invalid pointer')
            if so.gen is None or do.gen is not None or do.cells:
                raise Unsupported('memcpy of symbolic length')
            if d.off != 0:
                raise Unsupported('memcpy of symbolic length at offset')
            if not (type(s.off) is int and s.off == 0):
                idx0, inner0 = self.split_off(so, s.off)
            else:
                idx0, inner0 = ZERO, 0
            if inner0:
                raise Unsupported('memcpy alignment')
            cnt = Poly({m: norm_c(Fraction(c, so.esz)) for m, c in n.p.t.items()})
            # bounds
            if not self.decide(canon('le', sub(add(idx0, cnt), so.n))):
                raise Panic('memcpy out of bounds (source)')
            if type(do.size) is int or not self.W.equal(do.size, n.p):
                if type(do.size) is int or not self.decide(canon('le', sub(n.p, do.size))):
                    raise Panic('memcpy out of bounds (destination)')
            g = so.gen
            do.gen = (lambda idx, inner, g=g, b=idx0: g(add(idx, b), inner))
            do.esz = so.esz
            do.n = cnt
            do.arr = so.arr if idx0 == ZERO else None
            do.tag = so.tag if idx0 == ZERO else None
            return
        if n == 0:
            return
        if not isinstance(s, Ptr) or not isinstance(d, Ptr) or s.obj is None or d.obj is None:
            raise Unsupported('memcpy through invalid pointer')
        so, do = s.obj, d.obj
        if so.gen is not None:
            if do.gen is not None or n % 8:
                raise Unsupported('memcpy from symbolic array')
            for k in range(0, n, 8):
                v = self.load_arr(so, self.off_add(s.off, k), ('i', 64))
                self.store(Ptr(do, self.off_add(d.off, k)), ('i', 64), v)
            return
        if do.gen is not None:
            raise Unsupported('memcpy into symbolic array')
        so_, do_ = s.off, d.off
        if type(so_) is not int:
            so_ = self.concretize(so, so_, n)
        if type(do_) is not int:
            raise Unsupported('memcpy to symbolic offset')
        if so_ < 0 or so_ + n > so.size or do_ < 0 or do_ + n > do.size:
            raise Panic('memcpy out of bounds')
        if do.ro:
            raise Unsupported('memcpy to constant')
        items = []
        cells = so.cells
        if n < 4 * len(cells) + 64:
            rng = range(so_ - 15, so_ + n)
            items = [(x, cells[x]) for x in rng if x in cells]
        else:
            items = [(x, c) for x, c in cells.items() if so_ - 15 <= x < so_ + n]
        new = []
        for x, c in items:
            if x + c[0] <= so_:
                continue
            if x >= so_ and x + c[0] <= so_ + n:
                new.append((x - so_ + do_, c))
            else:
                v = c[1]
                if type(v) is int:
                    for k in range(c[0]):
                        b = x + k
                        if so_ <= b < so_ + n:
                            new.append((b - so_ + do_, (1, (v >> (8 * k)) & 255)))
                else:
                    for k in range(c[0]):
                        b = x + k
                        if so_ <= b < so_ + n:
                            new.append((b - so_ + do_, (1, Byte(v, c[0], k))))
        self.clear(do, do_, n)
        for x, c in new:
            do.cells[x] = c

    def alloc(self, size):
        self.allocs += 1
        if isinstance(size, SymInt):
            return Ptr(Obj('heap%d' % self.allocs, size.p), 0)
        return Ptr(Obj('heap%d' % self.allocs, size), 0)

    def intrinsic(self, name, args, rty, cargs):
        n = name[6:]
        if n.startswith(('lifetime', 'assume', 'experimental', 'dbg', 'invariant', 'donothing', 'prefetch')):
            return None
        if n.startswith('memcpy') or n.startswith('memmove'):
            return self.memcpy(args[0], args[1], args[2])
        if n.startswith('memset'):
            d, v, k = args[0], args[1], args[2]
            if type(k) is not int or type(v) is not int and v is not UNDEF:
                raise Unsupported('symbolic memset %r %r' % (v, k))
            if k == 0:
                return
            if d.off < 0 or d.off + k > d.obj.size:
                raise Panic('memset out of bounds')
            self.clear(d.obj, d.off, k)
            if v is UNDEF:
                return
            w = 0
            while w + 8 <= k and (d.off + w) % 8 == 0:
                d.obj.cells[d.off + w] = (8, int.from_bytes(bytes([v]) * 8, 'little'))
                w += 8
            while w < k:
                d.obj.cells[d.off + w] = (1, v)
                w += 1
            return
        base = n.split('.')[0]
        if base in ('sqrt',):
            return self.fsqrt(args[0])
        if base in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log'):
            return self.ffun(base, args[0])
        if base == 'sincos':
            if isinstance(args[0], Special):
                return [NAN, NAN]
            return list(self.sincos(args[0]))
        if base == 'atan2':
            return self.fatan2(args[0], args[1])
        if base == 'fabs':
            return self.fabs(args[0])
        if base == 'powi':
            e = args[1]
            if type(e) is not int:
                raise Unsupported('powi with symbolic exponent')
            if e >> 31:
                e -= 1 << 32
            return self.fpowi(args[0], e)
        if base == 'pow':
            return self.fpow(args[0], args[1])
        if base in ('fmuladd', 'fma'):
            return self.fadd(self.fmul(args[0], args[1]), args[2])
        if base in ('maxnum', 'minnum', 'maximumnum', 'minimumnum'):
            a, b = args[0], args[1]
            if a is NAN:
                return b
            if b is NAN:
                return a
            c = self.decide(self.fcmp('olt', a, b))
            if base.startswith('max'):
                return b if c else a
            return a if c else b
        if base in ('maximum', 'minimum'):
            a, b = args
            if a is NAN or b is NAN:
                return NAN
            c = self.decide(self.fcmp('olt', a, b))
            return (b if c else a) if base == 'maximum' else (a if c else b)
        if base == 'copysign':
            a, b = args
            m = self.fabs(a)
            if b is NAN:
                return m
            if isinstance(b, Special):
                return m if b is PINF else self.fneg(m)
            return self.fneg(m) if self.decide(canon('lt', b)) else m
        if base in ('umax', 'umin', 'smax', 'smin'):
            c = self.decide(self.icmp(('u' if base[0] == 'u' else 's') + 'lt', rty, args[0], args[1]))
            return (args[1] if c else args[0]) if base.endswith('max') else (args[0] if c else args[1])
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'with.overflow' in n:
            w = rty[2][0][1]
            a, b = args
            if isinstance(a, BoolInt):
                a = int(self.decide(a.c))
            if isinstance(b, BoolInt):
                b = int(self.decide(b.c))
            if type(a) is int and type(b) is int:
                if base[0] == 's':
                    a = a - (1 << w) if a >> (w - 1) else a
                    b = b - (1 << w) if b >> (w - 1) else b
                r = a + b if 'add' in base else a - b if 'sub' in base else a * b
                if base[0] == 's':
                    ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
                else:
                    ov = not (0 <= r < (1 << w))
                return [r & ((1 << w) - 1), ov]
            pa, pb = self.ipoly(a), self.ipoly(b)
            if 'sub' in base:
                r = sub(pa, pb)
                if self.decide(canon('lt', r)):
                    return [UNDEF, True]
                return [self.symret(r), False]
            self.assumed.add('lengths and indices stay below 2^63 (no overflow in index arithmetic)')
            if 'add' in base:
                return [self.symret(add(pa, pb)), False]
            return [self.symret(self.W.mul(pa, pb)), False]
        if base == 'usub' and 'sat' in n:
            a, b = args
            if type(a) is int and type(b) is int:
                return max(0, a - b)
            r = sub(self.ipoly(a), self.ipoly(b))
            return 0 if self.decide(canon('lt', r)) else self.symret(r)
        if base == 'uadd' and 'sat' in n:
            return self.ibin('add', rty, args[0], args[1])
        if base == 'expect':
            return args[0]
        if base == 'is' and 'is.constant' in n:
            return False
        if base == 'abs':
            a = args[0]
            if type(a) is int:
                w = rty[1]
                return (1 << w) - a if a >> (w - 1) else a
        if base == 'is' and 'is.fpclass' in n:
            v, msk = args[0], args[1]
            if v is NAN:
                return bool(msk & 3)
            if v is PINF:
                return bool(msk & 0x200)
            if v is NINF:
                return bool(msk & 4)
            finite = msk & 0x1f8
            if finite == 0:
                return False
            if finite == 0x1f8:
                return True
            negm, posm, zm = msk & 0x8, msk & 0x100, msk & 0x40
            if self.decide(canon('eq', v)):
                return bool(zm)
            return bool(negm) if self.decide(canon('lt', v)) else bool(posm)
        if base in ('ctpop', 'cttz', 'ctlz', 'bswap') and type(args[0]) is int:
            a = args[0]
            w = rty[1]
            if base == 'ctpop':
                return bin(a).count('1')
            if base == 'cttz':
                return w if a == 0 else (a & -a).bit_length() - 1
            if base == 'ctlz':
                return w - a.bit_length()
        if base in ('floor', 'ceil', 'trunc', 'round', 'rint') and isinstance(args[0], Poly) and args[0].is_const():
            c = Fraction(args[0].const())
            return num({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(base, round)(c))
        if base == 'ucmp' or base == 'scmp':
            s = base[0]
            if self.decide(self.icmp(s + 'lt', cargs[0][0], args[0], args[1])):
                return (1 << rty[1]) - 1
            return 0 if self.decide(self.icmp('eq', cargs[0][0], args[0], args[1])) else 1
        if base == 'trap':
            raise Panic('trap')
        if base == 'load' and 'relative' in n:
            raise Unsupported(n)
        raise Unsupported('intrinsic ' + name)

    # --------------------------------------------------- runtime for contracts
    def getstr(self, p, n):
        return bytes(self.load_val(p.obj, p.off + k, ('i', 8)) for k in range(n)).decode()

    def fresh_name(self, s):
        k = self.named.get(s, 0)
        self.named[s] = k + 1
        return s if k == 0 else '%s#%d' % (s, k)

    def rt_f64(self, p, n, lo, hi):
        s = self.fresh_name(self.getstr(p, n))
        if self.kstack:
            return self.W.poly(self.W.mk('sel', tuple(self.kstack), s))
        v = self.W.mk('var', (), s)
        if isinstance(lo, Poly) and isinstance(hi, Poly):
            self.ranges[v.id] = (float(lo.const()) if lo.is_const() else -3.0, float(hi.const()) if hi.is_const() else 3.0)
        return self.W.poly(v)

    def rt_bool(self, p, n):
        s = self.fresh_name(self.getstr(p, n))
        if self.kstack:
            return canon('ne', self.W.poly(self.W.mk('sel', tuple(self.kstack), 'b!' + s)))
        v = self.W.mk('ivar', (), 'b!' + s, True, 1)
        return canon('ne', self.W.poly(v))

    def rt_choice(self, p, n, mx):
        s = self.fresh_name(self.getstr(p, n))
        k = self.choose(mx)
        self.inputs.append((s, k))
        return k

    def rt_requires(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if isinstance(c, bool):
            c = bool(c)
        q = self.ps.quick(c)
        if q is False:
            raise PathEnd()
        self.ps.assume(c)
        if q is None and self.pos >= len(self.script) and self.ps.sat([c]) == 'unsat':
            raise PathEnd()

    def rt_ensures(self, p, n, c):
        if isinstance(c, int):
            c = bool(c)
        self.oblige(self.getstr(p, n), c)

    def rt_eq(self, p, n, a, b, scale_):
        self.oblige_eq(self.getstr(p, n), a, b)

    def rt_same(self, p, n, a, b):
        """exact equality (also natively)"""
        self.oblige_eq(self.getstr(p, n), a, b)

    def rt_le(self, p, n, a, b, scale_):
        self.oblige(self.getstr(p, n), self.fcmp('ole', a, b))

    def rt_panics_iff(self, p, n, c):
        self.panic_spec = (self.getstr(p, n), bool(c) if isinstance(c, int) else c)

    def rt_panics_done(self):
        if self.panic_spec is not None:
            self.finish_path()
            self.panic_spec = None

    def rt_uf(self, p, n, ap, k):
        nm = self.getstr(p, n)
        args = []
        for j in range(k):
            v = self.load(Ptr(ap.obj, self.off_add(ap.off, 8 * j)), ir.F64)
            if isinstance(v, Special):
                nm += '!%d%s' % (j, v.n)
                v = ZERO
            args.append(v)
        return self.W.poly(self.W.mk('uf', tuple(args), nm))

    def rt_stub(self, p, n, f):
        pat = self.getstr(p, n)
        if not isinstance(f, FnPtr):
            raise Unsupported('stub target')
        hit = False
        for mang, d in self.dem.items():
            if d == pat and mang in self.m.funcs:
                self.stubs[d] = f.name
                hit = True
        if not hit:
            self.missing_stub(pat)

    def missing_stub(self, pat):
        self.res.missing = getattr(self.res, 'missing', set()) | {pat}

    def rt_symbolic(self):
        return True

    def rt_loops(self, every):
        """loops are summarised for any number of iterations"""
        self.loops_on = True
        self.loops_every = bool(every)
        # ghost variables exist before every loop
        for name, d in self.m.globals.items():
            if ' global ' in d and 'verif_contracts' in name and name not in self.globals:
                o = self.global_ptr(name).obj
                for b in range(0, o.size - 7, 8):
                    if all(o.cells.get(b + i) == (1, 0) for i in range(8)):
                        self.clear(o, b, 8)
                        o.cells[b] = (8, 0)

    def rt_array(self, p, n, ln, esz):
        """symbolic array of `ln` elements of `esz` bytes (numbers only)"""
        nm = self.fresh_name(self.getstr(p, n))
        o = Obj('arr:' + nm, None)
        o.n = self.ipoly(ln)
        o.size = scale(o.n, esz)
        o.esz = esz
        W = self.W
        o.gen = lambda idx, inner: W.poly(W.mk('sel', (idx,), '%s.%d' % (nm, inner))) if inner % 8 == 0 else self.bad_inner()
        o.arr = nm
        o.tag = (nm, 0)
        self.arrays.add(nm)
        def again():
            c = Obj('arr:' + nm, o.size)
            c.n, c.esz, c.gen, c.arr, c.tag, c.again = o.n, o.esz, o.gen, nm, o.tag, again
            return c
        o.again = again
        return Ptr(o, 0)

    def rt_slice(self, p, n, ln, sorted_):
        """symbolic array of f64 with symbolic length `ln`"""
        nm = self.fresh_name(self.getstr(p, n))
        o = Obj('arr:' + nm, None)
        o.n = self.ipoly(ln)
        o.size = scale(o.n, 8)
        o.esz = 8
        W = self.W
        o.gen = lambda idx, inner: W.poly(W.mk('sel', (idx,), nm)) if inner == 0 else self.bad_inner()
        o.arr = nm
        o.tag = (nm, 0)
        self.arrays.add(nm)
        if sorted_ is True or sorted_ == 1:
            self.sh.inst[nm] = 'sorted'
        def again():
            c = Obj('arr:' + nm, o.size)
            c.n, c.esz, c.gen, c.arr, c.tag, c.again = o.n, o.esz, o.gen, nm, o.tag, again
            return c
        o.again = again
        return Ptr(o, 0)

    def rt_nested(self, p, n, dims, l0, l1, l2, ragged):
        """symbolic array of boxed arrays (of boxed arrays) of f64; the lengths do not depend on the row, or are arbitrary (`ragged`)"""
        nm = self.fresh_name(self.getstr(p, n))
        lens = [self.ipoly(x) for x in (l0, l1, l2)[:dims]]
        ints = [x for x in (l0, l1, l2)[:dims]]
        W = self.W

        ragged = ragged is True or ragged == 1

        def length(at):
            k = len(at)
            if not k or not ragged:
                return lens[k], ints[k]
            q = W.poly(W.mk('sel', at, nm + '#len', True))
            return q, SymInt(q)

        def nest(at):
            k = len(at)
            o = Obj('arr:%s%r' % (nm, k), None)
            o.n = length(at)[0]
            o.esz = 8 if k == dims - 1 else 16
            o.size = scale(o.n, o.esz)
            o.arr = nm
            o.tag = (nm, k)
            self.arrays.add(nm)
            rows = {}

            def gen(idx, inner):
                if k == dims - 1:
                    return W.poly(W.mk('sel', at + (idx,), nm)) if inner == 0 else self.bad_inner()
                if inner == 8:
                    return length(at + (idx,))[1]
                if inner:
                    self.bad_inner()
                if idx not in rows:
                    rows[idx] = Ptr(nest(at + (idx,)), 0)
                return rows[idx]
            o.gen = gen
            o.again = lambda: nest(at)
            return o
        return Ptr(nest(()), 0)

    def rt_copy(self, p, n):
        """a deep copy of `n` boxed arrays that are all of an arbitrary one"""
        o = p.obj
        if n == 0:
            return p
        if o is None or o.again is None or p.off != 0 or not self.W.equal(o.n, self.ipoly(n)):
            raise Unsupported('copy of boxed arrays')
        return Ptr(o.again(), 0)

    def bad_inner(self):
        raise Unsupported('misaligned array access')

    def rt_str(self, p, n, dp, k, lenp):
        """arbitrary string: decided to be one of the constants it is compared with, or none of them"""
        nm = self.fresh_name(self.getstr(p, n))
        ln = self.W.poly(self.W.mk('ivar', (), 'len!' + nm, True, 1 << 40))
        o = Obj('str:' + nm, scale(ln, 1))
        o.ro = True
        self.strings[id(o)] = [o, nm, ln, set()]
        self.store(lenp, ('i', 64), SymInt(ln))
        return Ptr(o, 0)

    def known_int(self, v):
        if type(v) is int:
            return v
        if isinstance(v, SymInt):
            if v.p.is_const():
                return v.p.const()
            for c in self.ps.pc:
                if isinstance(c, tuple) and c[0] == 'eq':
                    for d in (sub(v.p, c[1]), add(v.p, c[1])):
                        if d.is_const() and type(d.const()) is int:
                            return d.const()
        return None

    def str_compare(self, st, other, n):
        """does the arbitrary string have exactly these `n` bytes?"""
        o, nm, ln, no = st
        if n is None:
            raise Unsupported('comparison of an arbitrary string with unknown length')
        if not self.decide(canon('eq', sub(ln, num(n)))):
            raise Unsupported('comparison of a part of an arbitrary string')
        bs = []
        for k in range(n):
            x = self.load_val(other.obj, other.off + k, ('i', 8))
            if type(x) is not int:
                raise Unsupported('memcmp of symbolic bytes')
            bs.append(x)
        key = bytes(bs)
        if key in no:
            return StrOrder()
        v = self.W.poly(self.W.mk('ivar', (), 'is!%s!%s' % (nm, key.decode('latin1')), True, 1))
        if self.decide(canon('ne', v)):
            o.size = n
            for k, x in enumerate(bs):
                o.cells[k] = (1, x)
            del self.strings[id(o)]
            self.inputs.append((nm, 'text:' + key.decode('latin1')))
            return 0
        no.add(key)
        return StrOrder()

    def rt_len(self, p, n):
        nm = self.fresh_name(self.getstr(p, n))
        return SymInt(self.W.poly(self.W.mk('ivar', (), nm, True, 1 << 40)))

class StrOrder:
    """nonzero result of comparing an arbitrary string"""

class BoolInt:
    """0/1 integer from a symbolic boolean"""
    __slots__ = ('c',)
    def __init__(self, c):
        self.c = c

class Masked:
    pass

class Byte:
    """one byte of a value that is not a concrete integer"""
    __slots__ = ('v', 'n', 'i')
    def __init__(self, v, n, i):
        self.v = v
        self.n = n
        self.i = i

class Partial:
    """integer whose bytes are not all known: padding, or parts of other values"""
    __slots__ = ('bs',)
    def __init__(self, bs):
        self.bs = bs
    def trunc(self, eng, t2):
        return eng.from_bytes(self.bs[:ir.sizeof(t2)], t2)
    def shift(self, eng, n, t):
        return eng.from_bytes((self.bs[n // 8:] + [0] * len(self.bs))[:len(self.bs)], t)

def insert_at(v, idx, x):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = insert_at(v[idx[0]], idx[1:], x)
    return v

# --------------------------------------------------------- external models
def m_alloc(e, a):
    return e.alloc(a[0])
def m_alloc_zeroed(e, a):
    p = e.alloc(a[0])
    if type(a[0]) is not int:
        raise Unsupported('zeroed symbolic allocation')
    e.intrinsic('@llvm.memset', [p, 0, a[0]], None, None)
    return p
def m_nop(e, a):
    return None
def m_dealloc(e, a):
    return None
def m_realloc(e, a):
    p, old, al, new = a
    q = e.alloc(new)
    if type(old) is int:
        e.memcpy(q, p, min(old, new))
    return q

MODELS = {}
MODEL_PATS = [
    ('__rust_alloc_zeroed', m_alloc_zeroed),
    ('__rust_alloc', m_alloc),
    ('__rust_dealloc', m_dealloc),
    ('__rust_realloc', m_realloc),
    ('__rust_no_alloc_shim', m_nop),
    ('std::io::stdio::_print', m_nop),
    ('RawVecInner>::deallocate', m_nop),
]
