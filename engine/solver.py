"""Path-condition reasoning: sign rules, then z3 on the cone of influence."""
import z3, time
from fractions import Fraction
from terms import *

T = True
Fv = False

def neg_cond(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'lt':
        return ('le', neg(c[1]))
    if k == 'le':
        return ('lt', neg(c[1]))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return ('or', neg_cond(c[1]), neg_cond(c[2]))
    if k == 'or':
        return ('and', neg_cond(c[1]), neg_cond(c[2]))
    if k == 'forall':
        return ('exists', c[1], c[2])
    raise TermError('neg_cond')

def conj(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ('and', a, b)

def disj(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return ('or', a, b)

def canon(op, p):
    """p op 0"""
    if p.is_const():
        c = p.const()
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op]
    lead = p.t[max(p.t)]
    s = abs(lead)
    if op in ('eq', 'ne') and lead < 0:
        s = -s
    if s != 1:
        p = scale(p, 1 / Fraction(s))
    return (op, p)

SIGN_ADD = {}

class PathSolver:
    """one per path; shares the world and query cache"""
    def __init__(self, W, shared):
        self.W = W
        self.sh = shared            # Shared
        self.pc = []                # conds
        self.pcset = set()
        self.asign = {}             # aid -> '+','0+','-','0-'
        self.forall = []            # universally quantified facts: (fn(idx_atom_args)->cond list) handled by axioms
        self.ipc = []               # the conditions on whole numbers only
        self.ikey = 0
        self.isolver = None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(False)
            return
        if c[0] == 'and':
            self.assume(c[1])
            self.assume(c[2])
            return
        if c in self.pcset:
            return
        self.pc.append(c)
        self.pcset.add(c)
        if self.integral(c):
            self.ipc.append(c)
            self.ikey = self.sh.chain.setdefault((self.ikey, c), len(self.sh.chain) + 1)
        self.learn(c)

    def learn(self, c):
        op = c[0]
        if op in ('lt', 'le', 'eq', 'ne'):
            p = c[1]
            if len(p.t) == 1:
                (m, k), = p.t.items()
                if len(m) == 1:
                    aid, e = m[0]
                    if e % 2:
                        if op == 'lt':
                            self.setsign(aid, '-' if k > 0 else '+')
                        elif op == 'le':
                            s = '0-' if k > 0 else '0+'
                            self.setsign(aid, s)
                            if ('ne', self.W.poly(self.W.atoms[aid])) in self.pcset:
                                self.setsign(aid, s[1])
                    if op == 'ne':
                        s = self.atom_sign(aid)
                        if s in ('0+', '0-'):
                            self.setsign(aid, s[1])
            elif len(p.t) == 2 and () in p.t:
                # a*k + c op 0 : bound
                m = [x for x in p.t if x != ()][0]
                if len(m) == 1 and m[0][1] == 1 and op in ('lt', 'le'):
                    k = p.t[m]
                    b = -Fraction(p.t[()]) / k
                    aid = m[0][0]
                    # k*a < -c
                    if k < 0 and (b > 0 or (b == 0 and op == 'lt')):
                        self.setsign(aid, '+')
                    elif k < 0 and b == 0:
                        self.setsign(aid, '0+')
                    elif k > 0 and (b < 0 or (b == 0 and op == 'lt')):
                        self.setsign(aid, '-')
                    elif k > 0 and b == 0:
                        self.setsign(aid, '0-')

    def setsign(self, aid, s):
        o = self.asign.get(aid)
        if o in ('+', '-'):
            return
        self.asign[aid] = s

    def atom_sign(self, aid):
        s = self.asign.get(aid)
        if s:
            return s
        a = self.W.atoms[aid]
        if a.kind in ('pi', 'exp', 'pow'):
            return '+'
        if a.kind == 'sqrt' or a.nonneg:
            return '0+'
        if a.kind == 'inv':
            q = self.sign(a.args[0])
            if q in ('+', '-'):
                self.asign[aid] = q
                return q
        return None

    def mono_sign(self, m, c):
        s = 1 if c > 0 else -1
        strict = True
        for aid, e in m:
            a = self.atom_sign(aid)
            if e % 2 == 0:
                if a not in ('+', '-') and e > 0:
                    strict = False
            elif a == '+':
                pass
            elif a == '-':
                s = -s
            elif a == '0+':
                if e > 0:
                    strict = False
            elif a == '0-':
                s = -s
                if e > 0:
                    strict = False
            else:
                return None
        if s > 0:
            return '+' if strict else '0+'
        return '-' if strict else '0-'

    def sign(self, p):
        """'+','-','0+','0-','0', or None"""
        if not p.t:
            return '0'
        pos = neg_ = strict = False
        for m, c in p.t.items():
            s = self.mono_sign(m, c)
            if s is None:
                return None
            if s[-1] == '+':
                pos = True
            else:
                neg_ = True
            if s[0] != '0':
                strict = True
        if pos and neg_:
            return None
        if pos:
            return '+' if strict else '0+'
        return '-' if strict else '0-'

    def quick(self, c):
        """True/False/None"""
        if c is True or c is False:
            return c
        k = c[0]
        if c in self.pcset:
            return True
        n = neg_cond(c)
        if n in self.pcset:
            return False
        if k == 'and':
            a, b = self.quick(c[1]), self.quick(c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a, b = self.quick(c[1]), self.quick(c[2])
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if k not in ('lt', 'le', 'eq', 'ne'):
            return None
        p = c[1]
        s = self.sign(p)
        if s is None and len(p.t) > 1 and len(p.t) < 400 and any(
                e < 0 or (e > 1 and self.W.atoms[a].kind in ('sin', 'sqrt')) or self.W.atoms[a].kind == 'inv'
                for m in p.t for a, e in m):
            if self.W.maybe_zero(p):
                try:
                    if self.W.is_zero(p):
                        s = '0'
                except TermError:
                    pass
        if s is not None:
            if k == 'lt':
                r = {'-': True, '+': False, '0+': False, '0': False}.get(s)
            elif k == 'le':
                r = {'-': True, '0-': True, '+': False, '0': True}.get(s)
            elif k == 'eq':
                r = {'0': True, '+': False, '-': False}.get(s)
            else:
                r = {'0': False, '+': True, '-': True}.get(s)
            if r is not None:
                return r
        if len(p.t) == 2 and self.sh.inst:
            # neighbours in an increasing array
            (m1, k1), (m2, k2) = p.t.items()
            if k1 == -k2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                a, b = self.W.atoms[m1[0][0]], self.W.atoms[m2[0][0]]
                if a.kind == 'sel' and b.kind == 'sel' and a.name == b.name and self.sh.inst.get(a.name) == 'sorted':
                    d = sub(a.args[0], b.args[0])
                    if d.is_const() and d.t:
                        less = (d.const() < 0) == (k1 > 0)
                        return {'lt': less, 'le': less, 'eq': False, 'ne': True}[k]
        # x<0 known and asked x<=0 / x==0 ...
        if k == 'le':
            if ('lt', p) in self.pcset:
                return True
            if ('eq', p) in self.pcset or ('eq', neg(p)) in self.pcset:
                return True
        if k == 'lt':
            if ('eq', p) in self.pcset or ('eq', neg(p)) in self.pcset:
                return False
        if k in ('eq', 'ne'):
            q = neg(p)
            for z in (p, q):
                if ('lt', z) in self.pcset:
                    return k == 'ne'
        return None

    def integral(self, c):
        """a condition on whole numbers only"""
        if c is True or c is False:
            return False
        r = self.sh.isint.get(c)
        if r is None:
            if c[0] in ('and', 'or'):
                r = self.integral(c[1]) and self.integral(c[2])
            else:
                A = self.W.atoms
                r = all(type(k) is int and all(e > 0 and is_int(A[a]) for a, e in m) for m, k in c[1].t.items())
            self.sh.isint[c] = r
        return r

    def int_unsat(self, cs):
        """do the conditions on whole numbers exclude all of cs (which are such conditions too)"""
        cs = tuple(cs)
        key = (self.ikey, cs)
        r = self.sh.icache.get(key)
        if r is not None:
            return r
        sh = self.sh
        sh.queries += 1
        t0 = time.time()
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set('random_seed', 0)
            self.isolver.set('rlimit', 400000)
            self.idone = 0
            self.iatoms = {}
        S = self.isolver
        while self.idone < len(self.ipc):
            self.int_assert(self.ipc[self.idone])
            self.idone += 1
        for c in cs:
            for p in cond_polys(c):
                self.int_atoms(p)
        S.push()
        S.add([sh.cond(c, set()) for c in cs])
        try:
            r = str(S.check()) == 'unsat'
        except z3.Z3Exception:
            r = False
        S.pop()
        sh.time += time.time() - t0
        sh.icache[key] = r
        return r

    def int_assert(self, c):
        for p in cond_polys(c):
            self.int_atoms(p)
        self.isolver.add(self.sh.cond(c, set()))

    def int_atoms(self, p):
        sh, W = self.sh, self.W
        for aid in W.atoms_of(p):
            if aid in self.iatoms:
                continue
            self.iatoms[aid] = True
            a = W.atoms[aid]
            v = sh.ivar(aid)
            if a.nonneg or a.kind == 'sel':
                self.isolver.add(v >= 0)
            if a.kind == 'ivar' and a.extra is not None:
                self.isolver.add(v <= a.extra)
            if a.kind == 'sel':
                # equal indices, equal lengths
                for b in list(self.iatoms):
                    o = W.atoms[b]
                    if b == aid or o.kind != 'sel' or o.name != a.name or len(o.args) != len(a.args):
                        continue
                    ds = [sub(x, y) for x, y in zip(a.args, o.args)]
                    if any(d.is_const() and d.t for d in ds) or not all(self.integral(('eq', d)) for d in ds if d.t):
                        continue
                    for d in ds:
                        self.int_atoms(d)
                    self.isolver.add(z3.Implies(z3.And([sh.cond(('eq', d), set()) for d in ds if d.t]), v == sh.ivar(b)))

    # ---------------- z3 ---------------------------------------------------
    def sat(self, extra, rl=None):
        """is pc & extra satisfiable: 'sat' | 'unsat' | 'unknown'"""
        if extra and all(self.integral(c) for c in extra) and self.int_unsat(extra):
            return 'unsat'
        return self.sh.query(self, [c for c in self.pc], extra, rl)

    def valid(self, c, rl=None):
        if c is True:
            return True
        if c is False:
            return self.sat([], rl) == 'unsat'
        q = self.quick(c)
        if q is True:
            return True
        return self.sat([neg_cond(c)], rl) == 'unsat'


def cond_polys(c):
    if c[0] in ('and', 'or'):
        return cond_polys(c[1]) + cond_polys(c[2])
    return [c[1]]


def is_int(a):
    """whole-number valued: loop counters, lengths, and the length of a row"""
    return a.kind == 'ivar' or a.kind == 'sel' and a.name.endswith('#len')


class Shared:
    def __init__(self, W, rlimit=3000000):
        self.W = W
        self.cache = {}
        self.chain = {}
        self.isint = {}
        self.icache = {}
        self.zv = {}
        self.zp = {}
        self.rlimit = rlimit
        self.queries = 0
        self.time = 0.0
        self.inst = {}          # array name -> list of ('sorted', lenpoly)
        self.unknowns = 0
        self.deadline = None

    def conds_atoms(self, c, acc):
        if c is True or c is False:
            return
        if c[0] in ('and', 'or'):
            self.conds_atoms(c[1], acc)
            self.conds_atoms(c[2], acc)
        else:
            acc |= self.W.atoms_of(c[1])

    def closure(self, aset):
        """atoms reachable through definitions"""
        W = self.W
        st = list(aset)
        seen = set(aset)
        while st:
            a = W.atoms[st.pop()]
            if a.kind in ('inv', 'sqrt', 'sin', 'cos', 'asin', 'acos', 'atan', 'sel', 'exp', 'pow'):
                for p in a.args:
                    for b in W.atoms_of(p):
                        if b not in seen:
                            seen.add(b)
                            st.append(b)
        return seen

    def var(self, aid):
        v = self.zv.get(aid)
        if v is None:
            a = self.W.atoms[aid]
            if is_int(a):
                v = z3.ToReal(z3.Int('n%d' % aid))
            else:
                v = z3.Real('a%d' % aid)
            self.zv[aid] = v
        return v

    def ivar(self, aid):
        return z3.Int('n%d' % aid)

    def rat(self, c):
        if type(c) is int:
            return z3.RealVal(c)
        return z3.Q(c.numerator, c.denominator)

    def poly(self, p, used):
        r = self.zp.get(p)
        if r is None:
            ints = all(is_int(self.W.atoms[a]) and e > 0 for m in p.t for a, e in m) and all(type(c) is int for c in p.t.values())
            us = set()
            ts = []
            for m, c in p.t.items():
                t = None
                for aid, e in m:
                    us.add(aid)
                    if ints:
                        v = self.ivar(aid)
                    else:
                        v = self.var(aid)
                    if e < 0:
                        us.add(-aid - 1)
                        v = z3.Real('i%d' % aid)
                        e = -e
                    for _ in range(e):
                        t = v if t is None else t * v
                if t is None:
                    t = z3.IntVal(c) if ints else self.rat(c)
                elif c != 1:
                    t = (z3.IntVal(c) if ints else self.rat(c)) * t
                ts.append(t)
            e = ts[0] if len(ts) == 1 else z3.Sum(ts)
            r = self.zp[p] = (e, frozenset(us))
        used |= r[1]
        return r[0]

    def cond(self, c, used):
        if c is True or c is False:
            return z3.BoolVal(c)
        k = c[0]
        if k == 'and':
            return z3.And(self.cond(c[1], used), self.cond(c[2], used))
        if k == 'or':
            return z3.Or(self.cond(c[1], used), self.cond(c[2], used))
        e = self.poly(c[1], used)
        if k == 'lt':
            return e < 0
        if k == 'le':
            return e <= 0
        if k == 'eq':
            return e == 0
        return e != 0

    def axioms(self, ps, used0):
        """definitional axioms for the atoms in `used` (grows)"""
        W = self.W
        out = []
        done = set()
        used = set(used0)
        while True:
            todo = [a for a in used if a not in done]
            if not todo:
                break
            for aid in sorted(todo):
                done.add(aid)
                if aid < 0:
                    b = -aid - 1
                    us = set()
                    out.append(self.var(b) * z3.Real('i%d' % b) == 1)
                    used.add(b)
                    continue
                a = W.atoms[aid]
                v = self.var(aid)
                k = a.kind
                us = set()
                if a.args and k in ('exp', 'pow', 'sin', 'cos', 'asin', 'acos', 'atan', 'sqrt', 'ln') and all(x.is_const() for x in a.args):
                    # a number: enclosed by its floating-point value
                    try:
                        f = W.aval(aid, 0)
                        f = Fraction(float(f.real if isinstance(f, complex) else f))
                        e = abs(f) / 10**12 + Fraction(1, 10**300)
                        out += [v >= self.rat(f - e), v <= self.rat(f + e)]
                    except (ValueError, OverflowError):
                        pass
                if k == 'pi':
                    out.append(v > z3.Q(3141592653, 1000000000))
                    out.append(v < z3.Q(3141592654, 1000000000))
                elif k == 'inv':
                    out.append(v * self.poly(a.args[0], us) == 1)
                elif k == 'sqrt':
                    out.append(v >= 0)
                    out.append(v * v == self.poly(a.args[0], us))
                elif k in ('sin', 'cos'):
                    o = W.index.get(('cos' if k == 'sin' else 'sin', a.args, None, None))
                    if o is not None and o.id in used:
                        if k == 'sin':
                            w = self.var(o.id)
                            out.append(v * v + w * w == 1)
                    out.append(v <= 1)
                    out.append(v >= -1)
                    arg = a.args[0]
                    if len(W.atoms_of(arg)) <= 2:
                        x = self.poly(arg, us)
                        pi = self.var(W.PI.id)
                        us.add(W.PI.id)
                        if k == 'cos':
                            out.append(z3.Implies(z3.And(2 * x > -pi, 2 * x < pi), v > 0))
                            out.append(z3.Implies(x == 0, v == 1))
                            out.append(z3.Implies(z3.Or(2 * x == pi, 2 * x == -pi), v == 0))
                        else:
                            out.append(z3.Implies(z3.And(x > 0, x < pi), v > 0))
                            out.append(z3.Implies(z3.And(x < 0, x > -pi), v < 0))
                            out.append(z3.Implies(x == 0, v == 0))
                elif k in ('asin', 'atan', 'acos'):
                    pi = self.var(W.PI.id)
                    us.add(W.PI.id)
                    x = self.poly(a.args[0], us)
                    if k == 'acos':
                        out += [v >= 0, v <= pi, z3.Implies(x == 1, v == 0), z3.Implies(v == 0, x == 1),
                                z3.Implies(x == -1, v == pi), z3.Implies(v == pi, x == -1),
                                (x > 0) == (2 * v < pi)]
                    else:
                        if k == 'asin':
                            out += [2 * v >= -pi, 2 * v <= pi]
                        else:
                            out += [2 * v > -pi, 2 * v < pi]
                        out += [(x > 0) == (v > 0), (x < 0) == (v < 0)]
                elif k == 'exp':
                    x = self.poly(a.args[0], us)
                    out += [v > 0, (x > 0) == (v > 1), (x < 0) == (v < 1)]
                elif k == 'pow':
                    out.append(v > 0)
                elif k == 'ivar':
                    if a.nonneg:
                        out.append(self.ivar(aid) >= 0)
                    if a.extra is not None:
                        out.append(self.ivar(aid) <= a.extra)
                elif k == 'sel':
                    if is_int(a):
                        out.append(self.ivar(aid) >= 0)
                elif a.nonneg:
                    out.append(v >= 0)
                used |= us
        # sortedness of symbolic arrays
        bysel = {}
        for aid in done:
            if aid >= 0 and W.atoms[aid].kind == 'sel':
                bysel.setdefault(W.atoms[aid].name, []).append(aid)
        extra_used = set()
        for nm, ids in bysel.items():
            for i in ids:
                for j in ids:
                    if i < j and nm not in self.inst:
                        us = set()
                        ds = [sub(x, y) for x, y in zip(W.atoms[i].args, W.atoms[j].args)]
                        if any(d.is_const() and d.t for d in ds):
                            continue
                        out.append(z3.Implies(z3.And([self.poly(d, us) == 0 for d in ds]), self.var(i) == self.var(j)))
                        extra_used |= us
                    elif i < j:
                        us = set()
                        d = sub(W.atoms[i].args[0], W.atoms[j].args[0])
                        e = self.poly(d, us)
                        vi, vj = self.var(i), self.var(j)
                        out.append(z3.Implies(e < 0, vi < vj))
                        out.append(z3.Implies(e > 0, vi > vj))
                        out.append(z3.Implies(e == 0, vi == vj))
                        extra_used |= us
        for aid in extra_used - done:
            if aid >= 0:
                a = W.atoms[aid]
                if a.kind == 'ivar' and a.nonneg:
                    out.append(self.ivar(aid) >= 0)
        return out

    def query(self, path, pc, extra, rl=None):
        W = self.W
        if any(c is False for c in pc) or any(c is False for c in extra):
            return 'unsat'
        # cone of influence
        need = set()
        for c in extra:
            self.conds_atoms(c, need)
        if not extra:
            rel = list(pc)
        else:
            need = self.closure(need)
            rest = []
            for c in pc:
                s = set()
                self.conds_atoms(c, s)
                rest.append((c, self.closure(s) - {W.PI.id}))
            need -= {W.PI.id}
            rel = []
            ch = True
            while ch:
                ch = False
                nr = []
                for c, s in rest:
                    if s & need:
                        rel.append(c)
                        need |= s
                        ch = True
                    else:
                        nr.append((c, s))
                rest = nr
        key = (frozenset(rel), frozenset(extra))
        r = self.cache.get(key)
        if r is not None and (r != 'unknown' or rl is None):
            return r
        t0 = time.time()
        self.queries += 1
        used = set()
        fs = [self.cond(c, used) for c in rel] + [self.cond(c, used) for c in extra]
        fs += self.axioms(None, used)
        r = 'unknown'
        s = z3.Solver()
        s.set('rlimit', rl or self.rlimit)
        s.set('random_seed', 0)
        if self.deadline:
            # alarms are not delivered inside of z3
            s.set('timeout', max(1000, int((self.deadline - time.time()) * 1000)))
        s.add(*fs)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        if r == 'unknown':
            self.unknowns += 1
        self.time += time.time() - t0
        self.cache[key] = r
        return r
