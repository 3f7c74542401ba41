"""Loops with an unbounded number of iterations.

The state at the k-th visit of a loop head is generalised over a fresh natural
number k (the invariant is inferred from the first two visits and then proved:
every way through the body from visit k has to arrive at the state of visit
k+1).  A path that comes back to the loop head is then covered by the
generalised visit and ends there; a path that leaves the loop goes on with the
facts every completed iteration has established (for all j < k).

Classes of loop variables (SSA values of the loop head and memory cells):
  const            the same at every visit
  affine d         v0 + k d                      (integers, pointers)
  sum g            v0 + SUM over j<k of g(j)     (reals)
  lag h            h(k-1) for k >= 1, v0 for k = 0
  free             any value (over-approximation)
  poison           must not be used
"""
from terms import *
from solver import *
import ir

class LoopRestart(Exception):
    def __init__(self, key, trace, alts):
        self.key = key
        self.trace = trace
        self.alts = alts

UNDEF = Unsupported = None   # set by symex

class Poison:
    def __repr__(self):
        return 'poison'
    @property
    def p(self):
        from symex import Unsupported
        raise Unsupported('value not covered by the loop invariant')
POISON = Poison()

class Fact:
    """for all naturals j < bound: one of `paths` holds at k := j"""
    def __init__(self, k, bound, paths):
        self.k = k              # atom id of the bound variable
        self.bound = bound
        self.paths = paths      # [(literals, subfacts, locals)]
        self.done = set()

class LoopInfo:
    def __init__(self):
        self.status = 'new'
        self.version = 0
        self.phi = {}
        self.mem = {}
        self.msz = {}
        self.paths = []
        self.rounds = 0
        self.inv = None         # invariants over the placeholders inv!<register>
        self.entry = {}
        self.alt = {}           # other guesses: what the first iteration leaves
        self.tested = False

def loops_of(fn):
    """natural loops: header -> set of blocks"""
    if fn.loops is not None:
        return fn.loops
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        if t[0] == 'br':
            s = [t[1]]
        elif t[0] == 'cbr':
            s = [t[2], t[3]]
        elif t[0] == 'switch':
            s = [t[3]] + [c[1] for c in t[4]]
        else:
            s = []
        succ[b] = s
    order, seen = [], set()
    st = [(fn.order[0], iter(succ[fn.order[0]]))]
    seen.add(fn.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    def dominates(h, b):
        while True:
            if b == h:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    out = {}
    for b in order:
        for h in succ[b]:
            if dominates(h, b):
                body = out.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    fn.loops = out
    return out

def deep_atoms(W, p, acc):
    st = [p]
    while st:
        for a in W.atoms_of(st.pop()):
            if a not in acc:
                acc.add(a)
                st.extend(x for x in W.atoms[a].args if isinstance(x, Poly))
    return acc

def deep_subst(W, p, mp, cache=None):
    """replace atoms (id -> Poly), also inside the arguments of other atoms"""
    cache = {} if cache is None else cache
    def at(aid):
        r = cache.get(aid)
        if r is None:
            if aid in mp:
                r = mp[aid]
            else:
                a = W.atoms[aid]
                if not a.args or not (deep_atoms(W, W.poly(a), set()) & mp.keys()):
                    r = W.poly(a)
                else:
                    args = tuple(poly(x) for x in a.args)
                    if a.kind == 'inv':
                        r = W.inv(args[0])
                    elif a.kind == 'sum':
                        r = mk_sum(W, args[0], args[1], a.name)
                    else:
                        r = W.poly(W.mk(a.kind, args, a.name, a.nonneg, a.extra))
            cache[aid] = r
        return r
    def poly(q):
        if not (W.atoms_of(q) & mp.keys()) and all(not W.atoms[a].args for a in W.atoms_of(q)):
            return q
        out = ZERO
        for m, c in q.t.items():
            t = num(c)
            for aid, e in m:
                t = W.mul(t, W.pow(at(aid), e))
            out = add(out, t)
        return out
    return poly(p)

def mk_sum(W, n, body, bname):
    """SUM over 0 <= j < n of body(j): linear, so factors free of j come out"""
    bv = W.mk('ivar', (), bname, True).id
    groups = {}
    for m, c in body.t.items():
        out, inn = [], []
        for aid, e in m:
            (inn if aid == bv or bv in deep_atoms(W, W.poly(W.atoms[aid]), set()) else out).append((aid, e))
        groups.setdefault(tuple(inn), {})[tuple(out)] = c
    r = ZERO
    for inn, outs in groups.items():
        s = n if not inn else W.poly(W.mk('sum', (n, Poly({inn: Fraction(1)})), bname))
        r = add(r, W.mul(Poly(outs), s))
    return r

def cond_map(c, f):
    if c is True or c is False:
        return c
    if c[0] in ('and', 'or'):
        a, b = cond_map(c[1], f), cond_map(c[2], f)
        return conj(a, b) if c[0] == 'and' else disj(a, b)
    return canon(c[0], f(c[1]))

def cond_polys(c, out):
    if c is True or c is False:
        return out
    if c[0] in ('and', 'or'):
        cond_polys(c[1], out)
        cond_polys(c[2], out)
    else:
        out.append(c[1])
    return out

class Loops:
    """mixin of the engine"""

    def loops_start(self):
        self.loops_on = False
        self.loop_entries = 0
        self.int_forks = 0
        self.loops_every = False
        self.kstack = []
        self.applied = []
        self.facts = []
        self.idx_terms = []
        self.idx_seen = set()
        self.nfacts = 0
        self.arrays = set()
        self.in_inst = False
        self.umax0 = -1

    # ------------------------------------------------------------- values
    def lsig(self, v):
        """comparable image of a value (across runs)"""
        from symex import Ptr, PtrInt, SymInt, FBits, BoolInt, Special, FnPtr
        if isinstance(v, bool):
            return ('i', int(v))
        if type(v) is int:
            return ('i', v)
        if isinstance(v, Poly):
            return ('f', v)
        if isinstance(v, SymInt):
            return ('s', v.p)
        if isinstance(v, BoolInt):
            return ('b', v.c)
        if isinstance(v, tuple):
            return ('b', v)
        if isinstance(v, Ptr):
            return ('p', v.obj.uid if v.obj is not None else None, num(v.off) if type(v.off) is int else v.off)
        if isinstance(v, PtrInt):
            return ('pi', self.lsig(v.p))
        if isinstance(v, FBits):
            return ('f', v.v) if isinstance(v.v, Poly) else ('x', v.v)
        if isinstance(v, FnPtr):
            return ('fn', v.name)
        if isinstance(v, list):
            return ('l', tuple(self.lsig(x) for x in v))
        if isinstance(v, Special):
            return ('sp', v.n)
        return ('o', id(v))

    def snapshot(self):
        return {o.uid: dict(o.cells) for o in self.objs if not o.ro and not o.freed and o.gen is None}

    # ------------------------------------------------------------ loop head
    def at_header(self, fn, cur, prev, fr, phis, ls, body):
        from symex import PathEnd, Unsupported, BoolInt
        rec = ls.get(cur)
        for r in phis:
            if isinstance(fr[r], BoolInt):
                q = self.ps.quick(fr[r].c)
                if q is not None:
                    fr[r] = int(q)
        if prev in body and rec is not None:
            return self.at_back_edge(fn, cur, fr, phis, rec)
        # entry
        self.loop_entries += 1
        key = (self.loop_entries, fn.name, cur, tuple(int(bool(x[0])) if isinstance(x[0], bool) else x[0] for x in self.trace),
               tuple((id(i), i.version) for i in self.applied))
        rec = ls[cur] = dict(key=key, visits=0, forks=self.int_forks, pos=len(self.trace), info=None, collecting=False, phis=phis)
        info = self.loopinfo.get(key)
        if info is None:
            rec['s0'] = ({r: fr[r] for r in phis}, self.snapshot(), self.objs[-1].uid if self.objs else -1)
            return
        if info.status == 'plain':
            rec['plain'] = info
            return
        rec['info'] = info
        rec['collecting'] = self.collect == key
        self.over = True
        self.apply(info, rec, fr, phis)

    def at_back_edge(self, fn, cur, fr, phis, rec):
        from symex import PathEnd, Unsupported
        if rec['info'] is not None:
            if rec['collecting']:
                self.arrive(fr, phis, rec)
            raise PathEnd()
        rec['visits'] += 1
        if rec.get('plain') is not None and rec['visits'] > 40:
            raise Unsupported('no invariant found for a loop (%s)' % getattr(rec['plain'], 'why', 'rounds'))
        if rec['visits'] == 1 and rec['key'] not in self.loopinfo:
            rec['s1'] = ({r: fr[r] for r in phis}, self.snapshot())
        if rec["visits"] <= 4 and rec['forks'] < self.int_forks and rec['key'] not in self.loopinfo:
            p0, m0, umax = rec['s0']
            p1, m1 = rec['s1']
            info = LoopInfo()
            for r in phis:
                info.phi[r] = self.guess(p0[r], p1[r])
            for o in self.objs:
                if o.uid > umax or o.ro or o.uid not in m0 or o.uid not in m1:
                    continue
                a, b = m0[o.uid], m1[o.uid]
                for off in set(a) | set(b):
                    x, y = a.get(off), b.get(off)
                    if x is y:
                        continue
                    if y is None or (x is not None and x[0] != y[0]):
                        info.mem[(o.uid, off)] = ('mixed', max(c[0] for c in (x, y) if c))
                    else:
                        g = self.guess(x[1], y[1]) if x is not None else ('free', [y[1]])
                        if x is None or g[0] == 'free' or g[0] == 'affine' and isinstance(y[1], int) and g[1] != ONE:
                            info.alt[(o.uid, off)] = ('lag', y[1], -1)
                        if g != ('const',):
                            info.mem[(o.uid, off)] = g
                            info.msz[(o.uid, off)] = y[0]
            info.status = 'gen'
            self.loopinfo[rec['key']] = info
            pos = rec['pos']
            raise LoopRestart(rec['key'], self.trace[:pos], [s for s in self.new_scripts if len(s) - 1 < pos])

    def guess(self, a, b):
        from symex import SymInt, Ptr, UNDEF
        sa, sb = self.lsig(a), self.lsig(b)
        if sa == sb:
            return ('const',)
        ia, ib = self.as_ipoly(a), self.as_ipoly(b)
        if ia is not None and ib is not None:
            d = sub(ib, ia)
            if d.is_const():
                return ('affine', d)
            return ('free', [])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
            d = sub(sb[2], sa[2])
            if d.is_const():
                return ('affine', d)
            return ('poison',)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return ('lag', b, -1)
        return ('free', [])

    def as_ipoly(self, v):
        from symex import SymInt
        if isinstance(v, bool):
            return None
        if type(v) is int:
            return num(v)
        if isinstance(v, SymInt):
            return v.p
        return None

    def typed_free(self, tag, samples):
        """an arbitrary value of the type of the samples"""
        from symex import SymInt, BoolInt, FBits, UNDEF
        W = self.W
        ks = set()
        for v in samples:
            if v is UNDEF or v is POISON:
                continue
            if isinstance(v, bool):
                ks.add('i1')
            elif type(v) is int and v == 0:
                ks.add('z')
            elif isinstance(v, tuple):
                ks.add('i1')
            elif isinstance(v, BoolInt):
                ks.add('b')
            elif type(v) is int:
                ks.add('b' if v in (0, 1) else 'n')
            elif isinstance(v, SymInt):
                ks.add('n')
            elif isinstance(v, (Poly, FBits)):
                ks.add('f')
            else:
                return POISON
        if 'z' in ks:
            ks.discard('z')
            if not ks:
                ks = {'b'}
        if ks == {'i1'}:
            return canon('ne', W.poly(W.mk('ivar', (), 'lb!' + tag, True, 1)))
        if ks == {'b'} or ks == {'i1', 'b'}:
            return BoolInt(canon('ne', W.poly(W.mk('ivar', (), 'lb!' + tag, True, 1))))
        if ks == {'n'} or ks == {'n', 'b'}:
            return SymInt(W.poly(W.mk('ivar', (), 'ln!' + tag, True)))
        if ks == {'f'}:
            return W.poly(W.mk('var', (), 'lf!' + tag))
        return POISON

    def shift(self, v, d, k):
        from symex import SymInt, Ptr
        step = self.W.mul(d, k)
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.off_add(v.off, step))
        return self.symret(add(self.ipoly(v), step))

    def apply(self, info, rec, fr, phis):
        W = self.W
        n = rec['key'][0]
        katom = W.mk('ivar', (), 'k!%d' % n, True)
        k = W.poly(katom)
        rec['k'] = k
        rec['katom'] = katom.id
        byuid = {o.uid: o for o in self.objs}
        lag = any(c[0] == 'lag' for c in list(info.phi.values()) + list(info.mem.values()))
        zero = False
        if lag:
            zero = self.decide(canon('eq', k))
            if not zero:
                self.ps.assume(canon('lt', neg(k)))
                self.add_idx(sub(k, ONE))
        self.applied = self.applied + [info]
        rec['frees'] = set()
        if zero:
            rec['k'] = ZERO
            rec['v'] = ({r: fr[r] for r in phis}, {})
            rec['pc'] = len(self.ps.pc)
            rec['nfacts'] = len(self.facts)
            rec['out'] = self.kstack
            self.kstack = self.kstack + [ZERO]
            if rec['collecting']:
                self.start_collect(rec)
            return
        def gen(cls, v0, tag):
            if cls[0] == 'const':
                return v0
            if cls[0] == 'affine':
                return self.shift(v0, cls[1], k)
            if cls[0] == 'sum':
                t = v0 if isinstance(v0, Poly) else ZERO
                if not isinstance(v0, Poly) and v0 != 0:
                    raise_unsup('sum')
                for co, body, bv, sg in cls[1]:
                    if body is None:
                        t = add(t, W.mul(co, k))
                        continue
                    s = mk_sum(W, k, body, bv)
                    a = W.atoms[max(W.atoms_of(s))]
                    if sg:
                        self.ps.setsign(a.id, sg)
                        self.ps.assume(canon('le', neg(s) if sg[-1] == '+' else s))
                    t = add(t, W.mul(co, s))
                return t
            if cls[0] == 'lag':
                return self.rebuild(cls[1], {cls[2]: sub(k, ONE)})
            if cls[0] == 'free':
                v = self.typed_free('%d!%s' % (n, tag), [v0] + cls[1])
                self.note_free(v, rec)
                return v
            return POISON
        info.entry = {r: self.as_ipoly(fr[r]) for r in phis}
        if info.inv and not info.tested:
            # they have to hold on entry
            info.tested = True
            mp = self.inv_map(info.entry)
            info.inv = [c for c in info.inv if self.inv_holds(self.ps, c, mp)]
        for r in phis:
            c = info.phi.get(r, ('const',))
            if c[0] != 'const':
                fr[r] = gen(c, fr[r], r)
        if info.inv:
            mp = self.inv_map({r: self.as_ipoly(fr[r]) for r in phis})
            for c in info.inv:
                self.ps.assume(cond_map(c, lambda p: deep_subst(W, p, mp)))
        cells = {}
        for (u, off), c in sorted(info.mem.items()):
            o = byuid.get(u)
            if o is None:
                continue
            x = o.cells.get(off)
            if c[0] == 'const':
                continue
            if c[0] == 'mixed':
                self.clear(o, off, c[1])
                o.cells[off] = (c[1], POISON)
            else:
                from symex import UNDEF
                sz = info.msz[(u, off)]
                v = gen(c, x[1] if x else UNDEF, 'm%d_%d' % (u, off))
                self.clear(o, off, sz)
                o.cells[off] = (sz, v)
            cells[(u, off)] = o.cells[off]
        rec['v'] = ({r: fr[r] for r in phis}, cells)
        rec['pc'] = len(self.ps.pc)
        rec['nfacts'] = len(self.facts)
        rec['out'] = self.kstack
        self.kstack = self.kstack + [k]
        if rec['collecting']:
            self.start_collect(rec)
        else:
            self.add_fact(Fact(katom.id, k, info.paths))
            rec['pc'] = len(self.ps.pc)
            rec['nfacts'] = len(self.facts)

    def start_collect(self, rec):
        rec['snap'] = self.snapshot()
        rec['umax'] = self.objs[-1].uid if self.objs else -1

    def note_free(self, v, rec):
        from symex import SymInt, BoolInt
        ps = []
        if isinstance(v, Poly):
            ps = [v]
        elif isinstance(v, SymInt):
            ps = [v.p]
        elif isinstance(v, BoolInt):
            cond_polys(v.c, ps)
        elif isinstance(v, tuple):
            cond_polys(v, ps)
        for p in ps:
            rec['frees'] |= self.W.atoms_of(p)

    def loop_exit(self, rec):
        from symex import PathEnd
        if rec['info'] is None:
            return
        if rec['collecting']:
            raise PathEnd()
        self.kstack = rec['out']

    def forked(self, c):
        """a decision with both outcomes possible: may it end a loop?"""
        if self.loops_every or any(self.W.atoms[a].kind == 'ivar' or self.W.atoms[a].kind == 'sel' and not all(
                x.is_const() for x in self.W.atoms[a].args) for p in cond_polys(c, []) for a in self.W.atoms_of(p)):
            self.int_forks += 1

    # ------------------------------------------------------------ arrivals
    def arrive(self, fr, phis, rec):
        """record the state after one iteration from the generalised visit"""
        derived = getattr(self.ps, 'derived', ())
        lits = self.weed([c for c in self.ps.pc[rec['pc']:] if c not in derived])
        sub_ = [f for f in self.facts[rec['nfacts']:] if not getattr(f, 'inner', False)]
        mem = {}
        for o in self.objs:
            if o.uid > rec['umax'] or o.ro:
                continue
            a = rec['snap'].get(o.uid)
            if a is None:
                continue
            if o.freed or o.gen is not None:
                mem[(o.uid, None)] = 'gone'
                continue
            if a == o.cells:
                continue
            for off in set(a) | set(o.cells):
                x, y = a.get(off), o.cells.get(off)
                if x is y:
                    continue
                mem[(o.uid, off)] = y
        self.arrivals.append(dict(k=rec['k'], katom=rec['katom'], phi={r: fr[r] for r in phis}, mem=mem, gen=rec['v'], snap=rec['snap'], lits=lits,
                                  sub=list(sub_), trace=list(self.trace), frees=set(rec['frees']), ps=self.ps, n=rec['key'][0], umax=rec['umax']))

    # ----------------------------------------------------------- exploration
    def collect_loop(self, fname, key, script):
        """infer and prove the invariant of one loop entry"""
        from symex import Unsupported, Budget, PathEnd, Panic
        info = self.loopinfo[key]
        saved = (self.collect, self.arrivals)
        try:
            while True:
                info.rounds += 1
                if info.rounds > 14:
                    info.status = 'plain'
                    return
                self.collect = key
                self.arrivals = []
                try:
                    self.explore(fname, [script])
                except (Unsupported, AttributeError, TypeError, KeyError, TermError) as e:
                    if info.alt and info.rounds == 1:
                        info.mem.update(info.alt)
                        info.alt = {}
                        continue
                    info.status = 'plain'
                    info.why = str(e)
                    return
                if not self.refine(info, self.arrivals) and not self.refine_inv(info, self.arrivals):
                    info.paths = [self.path_fact(a) for a in self.arrivals]
                    info.version += 1
                    return
                info.version += 1
        finally:
            self.collect, self.arrivals = saved

    # ---------------------------------------------------- invariants of searches
    def inv_map(self, vals):
        return {self.W.mk('ivar', (), 'inv!' + r, True).id: v for r, v in vals.items() if v is not None}

    def inv_holds(self, ps, c, mp):
        W = self.W
        need = set()
        for p in cond_polys(c, []):
            need |= {x for x in deep_atoms(W, p, set()) if (W.atoms[x].name or '').startswith('inv!')}
        if not need <= mp.keys():
            return False
        c = cond_map(c, lambda p: deep_subst(W, p, mp))
        return c is True or (c is not False and (ps.quick(c) is True or ps.valid(c, 400000)))

    def refine_inv(self, info, arr):
        """relations between integer loop variables, and what is known of the array elements they point to"""
        W = self.W
        if info.inv is None:
            regs = [r for r, c in info.phi.items() if c[0] == 'free' and c[1] is not None and all(
                self.as_ipoly(a['gen'][0][r]) is not None and self.as_ipoly(a['phi'][r]) is not None for a in arr if r in a['gen'][0])]
            info.inv = []
            if not regs or len(regs) > 3 or not arr:
                return False
            pv = {r: W.poly(W.mk('ivar', (), 'inv!' + r, True)) for r in regs}
            terms = [(pv[r], info.entry.get(r)) for r in regs]
            for i, r in enumerate(regs):
                for q in regs[i + 1:]:
                    e = info.entry.get(r), info.entry.get(q)
                    terms.append((add(pv[r], pv[q]), add(*e) if None not in e else None))
            bounds = {e for e in info.entry.values() if e is not None}
            preds = set()
            for a in arr:
                for c in a['lits']:
                    for l in self.flat(c):
                        ps = cond_polys(l, [])
                        if len(ps) != 1:
                            continue
                        sels = [x for x in W.atoms_of(ps[0]) if W.atoms[x].kind == 'sel']
                        if not sels:
                            bounds |= {W.poly(W.atoms[x]) for x in W.atoms_of(ps[0]) if W.atoms[x].kind == 'ivar' and not self.is_local(W.atoms[x], a['n'])}
                            continue
                        sels = [x for x in sels if any(W.atoms[y].kind == 'ivar' and self.is_local(W.atoms[y], a['n']) or W.atoms[y].kind not in ('ivar', 'var')
                                                       for i in W.atoms[x].args for y in W.atoms_of(i))]
                        idx = {W.atoms[x].args for x in sels}
                        if len(idx) != 1 or len(next(iter(idx))) != 1:
                            continue
                        rest = set()
                        for x in W.atoms_of(ps[0]) - set(sels):
                            deep_atoms(W, W.poly(W.atoms[x]), rest)
                            rest.add(x)
                        if rest & a['frees']:
                            continue
                        hole = W.poly(W.mk('ivar', (), 'hole!', True))
                        mp = {x: W.poly(W.mk('sel', (hole,), W.atoms[x].name)) for x in sels}
                        q = (l[0], deep_subst(W, ps[0], mp))
                        preds.add(canon(*q))
                        preds.add(neg_cond(canon(*q)))
            hid = W.mk('ivar', (), 'hole!', True).id
            out = []
            for t, e in terms:
                out.append(canon('lt', neg(t)))
                for b in bounds:
                    out.append(canon('le', sub(t, b)))
                    out.append(canon('lt', sub(t, b)))
                for p in preds:
                    for off in (0, 1):
                        c = canon(p[0], deep_subst(W, p[1], {hid: sub(t, num(off))}))
                        out.append(c)
                        if e is not None:
                            out.append(disj(canon('eq', sub(t, e)), c))
            for r in regs:
                for q in regs:
                    if r != q:
                        out.append(canon('le', sub(pv[r], pv[q])))
                        out.append(canon('lt', sub(pv[r], pv[q])))
            info.inv = list(dict.fromkeys(c for c in out if not isinstance(c, bool)))
            return bool(info.inv)
        keep = [c for c in info.inv if all(a['k'] == ZERO or self.inv_holds(a['ps'], c, self.inv_map({r: self.as_ipoly(v) for r, v in a['phi'].items()})) for a in arr)]
        if len(keep) != len(info.inv):
            info.inv = keep
            return True
        return False

    def flat(self, c):
        if isinstance(c, tuple) and c[0] == 'and':
            return self.flat(c[1]) + self.flat(c[2])
        return [c] if isinstance(c, tuple) and c[0] in ('lt', 'le', 'eq', 'ne') else []

    def same_val(self, a, b):
        if a is b:
            return True
        sa, sb = self.lsig(a), self.lsig(b)
        if sa == sb:
            return True
        if sa[0] == sb[0] == 'f' and isinstance(sa[1], Poly) and isinstance(sb[1], Poly):
            return self.W.equal(sa[1], sb[1])
        if sa[0] == sb[0] == 's':
            return not sub(sa[1], sb[1]).t
        if sa[0] == sb[0] == 'p' and sa[1] == sb[1]:
            return not sub(sa[2], sb[2]).t
        return False

    def refine(self, info, arr):
        """make the classes agree with the arrivals; True when something changed"""
        changed = False
        keys = [('phi', r) for r in info.phi] + [('mem', c) for c in info.mem]
        extra = set()
        for a in arr:
            for c in a['mem']:
                if c not in info.mem:
                    extra.add(c)
        for c in extra:
            if c[1] is None:
                raise_unsup('object freed in a loop')
            keys.append(('mem', c))
        for kind, name in keys:
            table = info.phi if kind == 'phi' else info.mem
            cls = table.get(name, ('const',))
            new = self.reclass(info, kind, name, cls, arr)
            if new != cls:
                table[name] = new
                changed = True
        return changed

    def reclass(self, info, kind, name, cls, arr):
        """class of one variable given (value at visit k, value at visit k+1) of every way through the body"""
        if cls[0] in ('poison', 'mixed'):
            return cls
        vals = []
        for a in arr:
            if kind == 'phi':
                vals.append((a['gen'][0][name], a['phi'][name], a))
                continue
            g = a['gen'][1].get(name) or a['snap'][name[0]].get(name[1])
            v = a['mem'].get(name, g)
            if name not in a['mem']:
                v = g
            if v is None or (g is not None and g[0] != v[0]):
                if v is None and g is None:
                    continue
                return ('mixed', max(c[0] for c in (g, v) if c))
            if info.msz.setdefault(name, v[0]) != v[0]:
                return ('mixed', 8)
            vals.append((g[1] if g is not None else UNDEF, v[1], a))
        if cls[0] == 'const':
            if all(self.same_val(g, v) for g, v, a in vals):
                return cls
            return ('free', [x for g, v, a in vals for x in (g, v)])
        if cls[0] == 'affine':
            for g, v, a in vals:
                try:
                    if a['k'] == ZERO or not isinstance(g, Poison) and self.same_val(self.shift(g, cls[1], ONE), v):
                        continue
                except (Unsupported, AttributeError, TypeError):
                    pass
                return ('free', [v])
            return cls
        if cls[0] == 'sum':
            # still what every way through the body adds?
            s = self.try_sum(vals)
            return cls if s and self.same_sum(s, cls) else ('free', [x for g, v, a in vals for x in (g, v)])
        if cls[0] == 'lag':
            l = self.try_lag(vals)
            if l and cls[2] == -1:
                return l
            return cls if l and l[2] == cls[2] and self.same_val(l[1], cls[1]) else ('free', [x for g, v, a in vals for x in (g, v)])
        s = self.try_sum(vals)
        if s:
            return s
        l = self.try_lag(vals)
        if l:
            return l
        samples = cls[1] + [v for g, v, a in vals]
        t = type(self.typed_free('t', samples))
        if t is Poison:
            return ('poison',)
        if t is not type(self.typed_free('t', cls[1])) or any(isinstance(g, Poison) for g, v, a in vals):
            return ('free', samples)
        return cls

    def pure(self, p, a):
        """free of loop-local and arbitrary values"""
        W = self.W
        for x in deep_atoms(W, p, set()):
            if x in a['frees']:
                return False
            at = W.atoms[x]
            if at.kind in ('ivar',) and self.is_local(at, a['n']):
                return False
        return True

    def is_local(self, at, n):
        nm = at.name or ''
        if nm.startswith(('q!', 'way!')) or '@' in nm:
            return True
        if nm.startswith(('k!', 'ln!', 'lb!')):
            try:
                return int(nm[3 if nm[0] == 'l' else 2:].split('!')[0].split('@')[0]) > n
            except ValueError:
                return True
        return False

    def try_sum(self, gs):
        W = self.W
        g0 = None
        first = []
        for x, y, a in gs:
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                return None
            d = sub(y, x)
            if not self.pure(d, a):
                return None
            if a['k'] == ZERO:
                first.append(d)
                continue
            if g0 is None:
                g0, ps, ka = d, a['ps'], a['katom']
            elif not W.equal(g0, d):
                return None
        if g0 is None or not all(W.equal(deep_subst(W, g0, {ka: ZERO}), d) for d in first):
            return None
        bname = self.bound_name(g0)
        bv = W.poly(W.mk('ivar', (), bname, True))
        out = {}
        order = []
        for m, c in g0.t.items():
            dep, co = [], []
            for aid, e in m:
                (dep if ka in deep_atoms(W, W.poly(W.atoms[aid]), set()) else co).append((aid, e))
            dep, co = tuple(dep), tuple(co)
            if dep not in out:
                out[dep] = ZERO
                order.append(dep)
            out[dep] = add(out[dep], Poly({co: c}))
        res = []
        for dep in order:
            if dep == ():
                res.append((out[dep], None, bname, None))
                continue
            sg = ps.mono_sign(dep, 1) if len(gs) == 1 else None
            body = deep_subst(W, Poly({dep: 1}), {ka: bv})
            res.append((out[dep], body, bname, {'+': '0+', '-': '0-'}.get(sg, sg)))
        return ('sum', res)

    def same_sum(self, a, b):
        eq = lambda x, y: x is y or x is not None and y is not None and not sub(x, y).t
        return len(a[1]) == len(b[1]) and all(eq(x[0], y[0]) and eq(x[1], y[1]) and x[2:] == y[2:] for x, y in zip(a[1], b[1]))

    def bound_name(self, p):
        W = self.W
        used = {W.atoms[x].name for x in deep_atoms(W, p, set()) if W.atoms[x].kind == 'ivar'}
        i = 0
        while 'bv%d' % i in used:
            i += 1
        return 'bv%d' % i

    def try_lag(self, gs):
        first = None
        for x, y, a in gs:
            if a['k'] == ZERO:
                # the visit at k = 0: the value of iteration 0
                continue
            self.umax0 = a['umax']
            ps = self.polys_in(y)
            if ps is None or not all(self.pure(p, a) for p in ps):
                return None
            if first is None:
                first = (y, a['katom'])
            elif not self.same_val(first[0], y):
                return None
        if first is None:
            return None
        for x, y, a in gs:
            if a['k'] == ZERO and not self.same_val(self.rebuild(first[0], {first[1]: ZERO}), y):
                return None
        return ('lag', first[0], first[1])

    def polys_in(self, v):
        from symex import SymInt, BoolInt, FBits, Special, Ptr
        if isinstance(v, Poly):
            return [v]
        if isinstance(v, SymInt):
            return [v.p]
        if isinstance(v, BoolInt):
            return cond_polys(v.c, [])
        if isinstance(v, tuple):
            return cond_polys(v, [])
        if isinstance(v, FBits) and isinstance(v.v, Poly):
            return [v.v]
        if isinstance(v, (bool, int, Special)):
            return []
        if isinstance(v, Ptr) and (v.obj is None or v.obj.uid <= self.umax0):
            return [v.off] if isinstance(v.off, Poly) else []
        return None

    def rebuild(self, v, mp):
        from symex import SymInt, BoolInt, FBits, Ptr
        f = lambda p: deep_subst(self.W, p, mp)
        if isinstance(v, Ptr) and v.obj is not None:
            # the object of that number in this run
            o = next((o for o in self.objs if o.uid == v.obj.uid), None)
            return Ptr(o, v.off) if o is not None else POISON
        if isinstance(v, Poly):
            return f(v)
        if isinstance(v, SymInt):
            return self.symret(f(v.p))
        if isinstance(v, BoolInt):
            c = cond_map(v.c, f)
            return int(c) if isinstance(c, bool) else BoolInt(c)
        if isinstance(v, tuple):
            return cond_map(v, f)
        if isinstance(v, FBits):
            return FBits(f(v.v))
        return v

    # ------------------------------------------------------------ normal form
    def int_eqs(self):
        """integer equations of the path, solved for the youngest unknown"""
        W = self.W
        mp = {}
        cs = list(self.ps.pc)
        for c in self.ps.pc:
            # a <= b with b <= a
            if isinstance(c, tuple) and c[0] in ('le', 'lt') and all(W.atoms[x].kind == 'ivar' for x in W.atoms_of(c[1])) \
                    and any(W.atoms[x].name.startswith('k!') for x in W.atoms_of(c[1])) and all(x in (1, -1) for m, x in c[1].t.items() if m):
                q = c[1] if c[0] == 'le' else add(c[1], ONE)
                if self.ps.valid(canon('le', neg(q)), 400000):
                    cs.append(canon('eq', q))
        for c in cs:
            if not (isinstance(c, tuple) and c[0] == 'eq'):
                continue
            p = c[1]
            if not all(W.atoms[x].kind == 'ivar' for x in W.atoms_of(p)):
                continue
            p = deep_subst(W, p, mp) if mp else p
            best = None
            for m, k in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and k in (1, -1) and (best is None or m[0][0] > best[0]):
                    if all(m[0][0] not in dict(m2) for m2 in p.t if m2 != m):
                        best = (m[0][0], m, k)
            if best is None:
                continue
            aid, m, k = best
            val = scale(Poly({m2: c2 for m2, c2 in p.t.items() if m2 != m}), -k)
            mp = {x: deep_subst(W, v, {aid: val}) for x, v in mp.items()}
            mp[aid] = val
        return mp

    def norm_over(self, *ps):
        """terms modulo the integer equations of the path and the recursion of sums"""
        W = self.W
        mp = self.int_eqs()
        ps = [deep_subst(W, p, mp) if isinstance(p, Poly) and mp else p for p in ps]
        for _ in range(6):
            sums = {}
            for p in ps:
                if isinstance(p, Poly):
                    for x in W.atoms_of(p):
                        if W.atoms[x].kind == 'sum':
                            sums.setdefault((W.atoms[x].args[1], W.atoms[x].name), []).append(x)
            rep = {}
            for (body, bn), ids in sums.items():
                bv = W.mk('ivar', (), bn, True).id
                for x in ids:
                    n = W.atoms[x].args[0]
                    t = ZERO
                    if n.is_const():
                        if n.const() > 12:
                            continue
                        for j in range(n.const()):
                            t = add(t, deep_subst(W, body, {bv: num(j)}))
                        rep[x] = t
                        continue
                    for y in ids:
                        d = sub(n, W.atoms[y].args[0])
                        if x != y and d.is_const() and 0 < d.const() < 6:
                            lo = W.atoms[y].args[0]
                            t = W.poly(W.atoms[y])
                            for j in range(d.const()):
                                t = add(t, deep_subst(W, body, {bv: add(lo, num(j))}))
                            rep[x] = t
                            break
                    if rep:
                        break
                if rep:
                    break
            if not rep:
                break
            ps = [deep_subst(W, p, rep) if isinstance(p, Poly) else p for p in ps]
        return self.same_elements(ps)

    def same_elements(self, ps):
        """elements of an array at indices the path makes equal are one element"""
        W = self.W
        for _ in range(8):
            sels = {}
            for p in ps:
                if isinstance(p, Poly):
                    for x in deep_atoms(W, p, set()):
                        if W.atoms[x].kind == 'sel':
                            sels.setdefault((W.atoms[x].name, len(W.atoms[x].args)), []).append(x)
            rep = {}
            for ids in sels.values():
                ids.sort()
                for i, x in enumerate(ids):
                    for y in ids[:i]:
                        if y not in rep and all(a == b or self.same_index(a, b) for a, b in zip(W.atoms[x].args, W.atoms[y].args)):
                            rep[x] = W.poly(W.atoms[y])
                            break
            if not rep:
                break
            ps = [deep_subst(W, p, rep) if isinstance(p, Poly) else p for p in ps]
        return ps

    def same_index(self, a, b):
        d = sub(a, b)
        if d.is_const():
            return d == ZERO
        return self.ps.valid(canon('eq', d), 2000000)

    def sum_signs(self, cond):
        """a sum of terms of one sign has that sign; also looks up the elements of `cond`"""
        W = self.W
        ats = set()
        for p in cond_polys(cond, []):
            ats |= W.atoms_of(p)
        for x in list(ats):
            if W.atoms[x].kind == 'sel':
                for i, q in enumerate(W.atoms[x].args):
                    self.add_idx(q, self.sel_tag(W.atoms[x].name, i))
        for x in ats:
            a = W.atoms[x]
            if a.kind != 'sum' or self.ps.atom_sign(x):
                continue
            n, body = a.args
            j = W.mk('ivar', (), 'elem!%d' % x, True)
            jp = W.poly(j)
            old = self.ps, self.facts, self.idx_terms, self.idx_seen
            done = [(f, set(f.done)) for f in self.facts]
            try:
                ps = PathSolver(W, self.ps.sh)
                ps.pc, ps.pcset, ps.asign, ps.forall = list(self.ps.pc), set(self.ps.pcset), dict(self.ps.asign), list(self.ps.forall)
                ps.ipc, ps.ikey = list(self.ps.ipc), self.ps.ikey
                self.ps, self.facts, self.idx_terms, self.idx_seen = ps, list(self.facts), list(self.idx_terms), set(self.idx_seen)
                ps.assume(canon('le', neg(jp)))
                ps.assume(canon('le', add(sub(jp, n), ONE)))
                term = deep_subst(W, body, {W.mk('ivar', (), a.name, True).id: jp})
                self.add_idx(jp)
                s = None
                for sg, c in (('0+', canon('le', neg(term))), ('0-', canon('le', term))):
                    q = ps.quick(c)
                    if q or (q is None and ps.valid(c, self.rlimit)):
                        s = sg
                        break
            finally:
                self.ps, self.facts, self.idx_terms, self.idx_seen = old
                for f, d in done:
                    f.done = d
            if s:
                self.ps.setsign(x, s)
                self.ps.assume(canon('le', neg(W.poly(a)) if s == '0+' else W.poly(a)))

    # ----------------------------------------------------------------- facts
    def path_fact(self, a):
        """what an iteration that came back established: (literals, subfacts, locals)"""
        W = self.W
        lits = []
        loc = set()
        for c in a['lits']:
            ps = cond_polys(c, []) if not isinstance(c, bool) else []
            ats = set()
            for p in ps:
                deep_atoms(W, p, ats)
            if ats & a['frees']:
                continue
            lits.append(c)
            loc |= {x for x in ats if W.atoms[x].kind == 'ivar' and self.is_local(W.atoms[x], a['n'])}
        subs = []
        for f in a['sub']:
            bats = deep_atoms(W, f.bound, set())
            ats = set()
            for ls, ss, lo in f.paths:
                for c in ls:
                    for p in cond_polys(c, []):
                        deep_atoms(W, p, ats)
            ats.discard(f.k)
            ats |= bats
            if not ats & a['frees']:
                subs.append(f)
                loc |= {x for x in ats if W.atoms[x].kind == 'ivar' and self.is_local(W.atoms[x], a['n'])}
        if a['k'] == ZERO:
            # the first iteration, taken apart
            lits = lits + [canon('eq', W.poly(W.atoms[a['katom']]))]
        return self.project(lits, subs, loc)

    def project(self, lits, subs, loc):
        """without the locals about which only plain comparisons are known"""
        W = self.W
        held = set()
        for f in subs:
            deep_atoms(W, f.bound, held)
            for ls, ss, lo in f.paths:
                for c in ls:
                    for p in cond_polys(c, []):
                        deep_atoms(W, p, held)
                for g in ss:
                    # not looked into
                    held |= loc
        PS = PathSolver(W, self.ps.sh)
        def unit(c, x):
            for p in cond_polys(c, []):
                if not self.integral(p):
                    return False
                for m, k in p.t.items():
                    if len(m) > 1 or m and m[0][1] != 1:
                        return False
                    for y, e in m:
                        if y == x:
                            if k not in (1, -1):
                                return False
                        elif W.atoms[y].kind != 'ivar' and x in deep_atoms(W, W.poly(W.atoms[y]), set()):
                            return False
            return True
        def dnf(c):
            if c is True:
                return [[]]
            if c is False:
                return []
            if c[0] == 'and':
                return [a + b for a in dnf(c[1]) for b in dnf(c[2])]
            if c[0] == 'or':
                return dnf(c[1]) + dnf(c[2])
            return [[c]]
        def without(cs, x):
            low, high = [ZERO], []
            if W.atoms[x].extra is not None:
                high.append(num(W.atoms[x].extra))
            rest = True
            for c in cs:
                k = c[1].t.get(((x, 1),), 0)
                if not k:
                    rest = conj(rest, c)
                    continue
                r = Poly({m: v for m, v in c[1].t.items() if m != ((x, 1),)})
                if c[0] == 'lt':
                    r = add(r, ONE)
                if c[0] == 'ne':
                    continue
                if k > 0 or c[0] == 'eq':
                    high.append(neg(r) if k > 0 else r)
                if k < 0 or c[0] == 'eq':
                    low.append(r if k < 0 else neg(r))
            for a in low:
                for b in high:
                    rest = conj(rest, canon('le', sub(a, b)))
            return rest
        for x in sorted(loc - held):
            if not W.atoms[x].nonneg:
                continue
            mine, other = [], []
            for c in lits:
                ats = set()
                for p in cond_polys(c, []):
                    deep_atoms(W, p, ats)
                (mine if x in ats else other).append(c)
            if not all(unit(c, x) for c in mine):
                continue
            ds = [[]]
            for c in mine:
                ds = [d + e for d in ds for e in dnf(c)]
                if len(ds) > 32:
                    break
            if len(ds) > 32:
                continue
            r = False
            for d in ds:
                r = disj(r, without(d, x))
            if r is not True and PS.integral(r) and PS.int_unsat([neg_cond(r)]):
                r = True
            st, out = [r], []
            while st:
                c = st.pop()
                if isinstance(c, tuple) and c[0] == 'and':
                    st += [c[2], c[1]]
                elif c is not True:
                    out.append(c)
            lits = other + out
            loc = loc - {x}
        return (lits, subs, loc)

    def integral(self, p):
        return all(W.kind == 'ivar' or W.kind == 'sel' and W.name.endswith('#len') for W in (self.W.atoms[x] for x in self.W.atoms_of(p))) and all(
            type(c) is int for c in p.t.values())

    def weed(self, lits):
        """without the integer comparisons that follow from others"""
        top = {}
        for c in lits:
            if isinstance(c, tuple) and c[0] in ('le', 'lt') and self.integral(c[1]):
                k = c[1].t.get((), 0)
                q = sub(c[1], num(k))
                k += c[0] == 'lt'
                if q not in top or top[q][0] < k:
                    top[q] = (k, c)
        out = []
        for c in lits:
            if isinstance(c, tuple) and c[0] in ('le', 'lt', 'ne') and self.integral(c[1]):
                k = c[1].t.get((), 0)
                q = sub(c[1], num(k))
                if c[0] == 'ne':
                    if q in top and top[q][0] > k or neg(q) in top and top[neg(q)][0] > -k:
                        continue
                elif top[q][1] is not c:
                    continue
            out.append(c)
        return out

    def add_fact(self, f):
        # what follows from 0 <= j < bound need not be repeated in every instance
        W = self.W
        j = W.poly(W.mk('ivar', (), 'any!', True))
        guard = canon('le', add(sub(j, f.bound), ONE))
        def needed(l, lo):
            if not (isinstance(l, tuple) and l[0] in ('le', 'lt', 'ne') and self.integral(l[1])) or W.atoms_of(l[1]) & lo or f.k not in W.atoms_of(l[1]):
                return True
            return not self.ps.int_unsat([guard, neg_cond(cond_map(l, lambda p: deep_subst(W, p, {f.k: j})))])
        f.paths = [([l for l in ls if needed(l, lo)], ss, lo) for ls, ss, lo in f.paths]
        self.nfacts += 1
        f.id = self.nfacts
        # what holds in the last iteration and is the easier the smaller k holds in all
        def falls(l, lo):
            if not isinstance(l, tuple) or l[0] not in ('le', 'lt'):
                return False
            co = l[1].t.get(((f.k, 1),), 0)
            rest = Poly({m: c for m, c in l[1].t.items() if m != ((f.k, 1),)})
            return co > 0 and not deep_atoms(W, rest, set()) & (lo | {f.k})
        def fixed(path):
            ls, ss, lo = path
            ats = set()
            for l in ls:
                for p in cond_polys(l, []):
                    deep_atoms(W, p, ats)
            return not ss and not ats & (lo | {f.k})
        vary = [p for p in f.paths if not fixed(p)]
        short = len(vary) == 1 and any(falls(l, vary[0][2]) for l in vary[0][0])
        self.instance(f, sub(f.bound, ONE), short and not getattr(f, 'inner', False) and not vary[0][1])
        if short:
            f.paths = [([l for l in p[0] if not falls(l, p[2])], p[1], p[2]) if p is vary[0] else p for p in f.paths]
            if any(not ls and not ss for ls, ss, lo in f.paths):
                return
        self.facts.append(f)
        # an iteration never had k at the root of `... != 0`
        for ls, ss, lo in f.paths:
            for c in ls:
                if isinstance(c, tuple) and c[0] == 'ne':
                    m = ((f.k, 1),)
                    co = c[1].t.get(m)
                    if co in (1, -1):
                        rest = Poly({x: y for x, y in c[1].t.items() if x != m})
                        if all(self.W.atoms[x].kind == 'ivar' and x not in lo for x in self.W.atoms_of(rest)) and f.k not in self.W.atoms_of(rest):
                            self.instance(f, scale(rest, -co))
        for t, tag in list(self.idx_terms):
            self.instantiate(f, t, tag)

    def add_idx(self, t, tag=None):
        """`t` is an index of the array (and dimension) `tag`, or of any"""
        if not self.loops_on or (t, tag) in self.idx_seen or (t, None) in self.idx_seen or self.in_inst:
            return
        self.idx_seen.add((t, tag))
        self.idx_terms.append((t, tag))
        for f in list(self.facts):
            self.instantiate(f, t, tag)

    def sel_tag(self, name, pos):
        n = name[:-4] if name.endswith('#len') else name
        if n not in self.arrays:
            n = n.rsplit('.', 1)[0]
        return (n, pos) if n in self.arrays else None

    def offsets(self, f):
        """for every array, the constants c such that the fact speaks about its elements k+c"""
        r = getattr(f, 'offs', None)
        if r is not None:
            return r
        W = self.W
        r = {}
        k = W.poly(W.atoms[f.k])
        ats = set()

        def walk(paths):
            for ls, ss, lo in paths:
                for c in ls:
                    for p in cond_polys(c, []):
                        deep_atoms(W, p, ats)
                for sf in ss:
                    deep_atoms(W, sf.bound, ats)
                    walk(sf.paths)
        walk(f.paths)
        for x in ats:
            at = W.atoms[x]
            if at.kind == 'sel':
                for i, q in enumerate(at.args):
                    d = sub(q, k)
                    if d.is_const():
                        r.setdefault(self.sel_tag(at.name, i), set()).add(d.const())
        f.offs = r
        return r

    def instantiate(self, f, t, tag):
        r = self.offsets(f)
        if tag in r or (None in r or not r):
            cs = r.get(tag, set()) | (r.get(None, set()) if tag in r or None in r else set())
            cs |= {0} if None in r or not r else set()
        elif tag is None:
            cs = {0}.union(*r.values())
        else:
            return
        for c in sorted(cs):
            self.instance(f, sub(t, num(c)))

    def instance(self, f, j, keep=False):
        W = self.W
        if j in f.done or len(f.done) > 24 or any(not ls and not ss for ls, ss, lo in f.paths):
            return
        f.done.add(j)
        # guard 0 <= j < bound
        lo, hi = canon('le', neg(j)), canon('le', add(sub(j, f.bound), ONE))
        out = []
        for g in (lo, hi):
            q = self.ps.quick(g)
            if q is False:
                return
            if q is None:
                if self.ps.integral(g):
                    if self.ps.int_unsat([neg_cond(g)]):
                        continue
                    if self.ps.int_unsat([g]):
                        return
                elif self.ps.valid(g, 400000):
                    continue
                elif self.ps.sat([g], 400000) == 'unsat':
                    return
                out.append(neg_cond(g))
        self.in_inst = True
        try:
            body = False
            new_idx = []
            for n, (ls, ss, loc) in enumerate(f.paths):
                mp = {f.k: j}
                for x in loc:
                    a = W.atoms[x]
                    mp[x] = W.poly(W.mk('ivar', (), '%s@%d.%d!%s' % (a.name, f.id, n, show(j, W)), True, a.extra))
                cache = {}
                fn = lambda p: deep_subst(W, p, mp, cache)
                c = True
                for l in ls:
                    c = conj(c, cond_map(l, fn))
                other = []
                if ss and (len(f.paths) > 1 or out):
                    # the nested facts hold if this way was taken
                    t = W.poly(W.mk('ivar', (), 'way!%d.%d!%s' % (f.id, n, show(j, W)), True, 1))
                    c = conj(c, canon('eq', sub(t, ONE)))
                    other = [([canon('eq', t)], [], set())]
                body = disj(body, c)
                if c is not False:
                    for sfact in ss:
                        mp2 = {a: b for a, b in mp.items() if a != sfact.k}
                        f2 = lambda p: deep_subst(W, p, mp2)
                        nf = Fact(sfact.k, deep_subst(W, sfact.bound, mp), [([cond_map(l, f2) for l in ls2], ss2, lo2 - set(mp2)) for ls2, ss2, lo2 in sfact.paths] + other)
                        new_idx.append(nf)
            for g in out:
                body = disj(g, body)
            n = len(self.ps.pc)
            self.ps.assume(body)
            if not hasattr(self.ps, 'derived'):
                self.ps.derived = set()
            if not keep:
                self.ps.derived |= set(self.ps.pc[n:])
        finally:
            self.in_inst = False
        for nf in new_idx:
            # follows from f
            nf.inner = True
            self.add_fact(nf)

def raise_unsup(m):
    from symex import Unsupported
    raise Unsupported(m)
