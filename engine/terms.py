"""Real-valued terms: Laurent polynomials with rational coefficients over hash-consed atoms.

f64 values are read as real numbers.  Literals are read as the simplest rational
(or rational multiple of pi) that rounds to them.
"""
from fractions import Fraction
import math, cmath, random

# floating-point constants that agree to this relative precision denote the same real number
CTOL = Fraction(1, 10**12)

class TermError(Exception):
    pass

class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'nonneg', 'extra', 'vals', 'mom')
    def __repr__(self):
        return 'a%d:%s:%s' % (self.id, self.kind, self.name)

class Poly:
    __slots__ = ('t', '_h', '_at')
    def __init__(self, t):
        self.t = t
        self._h = None
        self._at = None
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), 0)
    def __repr__(self):
        return show(self)

ZERO = Poly({})
ONE = Poly({(): 1})

def num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = c.numerator
    return Poly({(): c}) if c else ZERO

def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    r = dict(a.t)
    for m, c in b.t.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = norm_c(x + c)
            if x:
                r[m] = x
            else:
                del r[m]
    return Poly(r)

def scale(a, k):
    if k == 1:
        return a
    if not k:
        return ZERO
    return Poly({m: norm_c(c * k) for m, c in a.t.items()})

def neg(a):
    return Poly({m: -c for m, c in a.t.items()})

def sub(a, b):
    return add(a, neg(b))

def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1 = len(m1)
    n2 = len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)

def mono_pow(m, k):
    return tuple((a, e * k) for a, e in m)

LIMIT = [60000]

class World:
    """Atom table of one harness."""
    def __init__(self):
        self.atoms = []
        self.index = {}
        self.bykind = {}
        self.rng = random.Random(12345)
        self.PI = self.mk('pi', (), 'pi', True)
        self.PIp = self.poly(self.PI)
        self.nvals = 3
        self.congr_eq = None      # callback for deep equality (path condition)

    def mk(self, kind, args, name=None, nonneg=False, extra=None):
        key = (kind, args, name, extra)
        a = self.index.get(key)
        if a is None:
            # congruence: same kind/name with provably equal args
            if args and kind not in ('ivar',):
                for b in self.bykind.get((kind, name, extra), ()):
                    if len(b.args) == len(args) and all(self.equal(x, y) for x, y in zip(b.args, args)):
                        self.index[key] = b
                        return b
            a = Atom()
            a.id = len(self.atoms)
            a.kind = kind
            a.args = args
            a.name = name
            a.nonneg = nonneg
            a.extra = extra
            a.vals = {}
            self.atoms.append(a)
            self.index[key] = a
            self.bykind.setdefault((kind, name, extra), []).append(a)
        return a

    def poly(self, a, e=1):
        return Poly({((a.id, e),): 1})

    def var(self, name, kind='var', nonneg=False):
        return self.poly(self.mk(kind, (), name, nonneg))

    # ---- multiplication with clean-up of inverse atoms -------------------
    def mul(self, a, b):
        if not a.t or not b.t:
            return ZERO
        if a.is_const():
            return scale(b, a.const())
        if b.is_const():
            return scale(a, b.const())
        if len(a.t) * len(b.t) > LIMIT[0] * 4:
            raise TermError('polynomial too large')
        r = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                x = r.get(m, 0) + c1 * c2
                r[m] = x
        r = {m: norm_c(c) for m, c in r.items() if c}
        if len(r) > LIMIT[0]:
            raise TermError('polynomial too large')
        p = Poly(r)
        # expand negative powers of inverse atoms
        A = self.atoms
        for m in r:
            for aid, e in m:
                if e < 0 and A[aid].kind == 'inv':
                    return self.expand_inv(p)
        return p

    def expand_inv(self, p):
        A = self.atoms
        out = ZERO
        for m, c in p.t.items():
            rest = []
            f = Poly({(): c})
            for aid, e in m:
                if e < 0 and A[aid].kind == 'inv':
                    f = self.mul(f, self.pow(A[aid].args[0], -e))
                else:
                    rest.append((aid, e))
            out = add(out, self.mul(Poly({tuple(rest): 1}), f))
        return out

    def pow(self, a, n):
        if n == 0:
            return ONE
        if n < 0:
            return self.pow(self.inv(a), -n)
        if len(a.t) == 1:
            (m, c), = a.t.items()
            return Poly({mono_pow(m, n): norm_c(c ** n)})
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else self.mul(r, base)
            n >>= 1
            if n:
                base = self.mul(base, base)
        return r

    def content(self, p):
        """(coef, mono, primitive) with p = coef*mono*primitive; primitive's leading coef 1"""
        ms = list(p.t)
        lo = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(lo):
                e = min(lo[a], d.get(a, 0))
                lo[a] = e
            for a, e in d.items():
                if a not in lo and e < 0:
                    lo[a] = e
        mono = tuple(sorted((a, e) for a, e in lo.items() if e))
        im = mono_pow(mono, -1)
        q = {mono_mul(m, im): c for m, c in p.t.items()}
        lead = max(q)
        c0 = q[lead]
        prim = Poly({m: norm_c(Fraction(c) / c0) for m, c in q.items()})
        return c0, mono, prim

    def inv(self, a):
        if not a.t:
            raise TermError('inverse of zero')
        if len(a.t) == 1:
            (m, c), = a.t.items()
            r = Poly({mono_pow(m, -1): norm_c(1 / Fraction(c))})
            for aid, e in m:
                if self.atoms[aid].kind == 'inv':
                    return self.expand_inv(r)
            return r
        c, mono, prim = self.content(a)
        at = self.mk('inv', (prim,))
        r = Poly({mono_mul(mono_pow(mono, -1), ((at.id, 1),)): norm_c(1 / Fraction(c))})
        for aid, e in mono:
            if self.atoms[aid].kind == 'inv':
                return self.expand_inv(r)
        return r

    def div(self, a, b):
        if b.is_const():
            return scale(a, 1 / Fraction(b.const()))
        if len(b.t) > 1 and len(a.t) >= len(b.t):
            # exact monomial multiple?
            if len(a.t) == len(b.t):
                ca, ma, pa = self.content(a)
                cb, mb, pb = self.content(b)
                if pa == pb:
                    return Poly({mono_mul(ma, mono_pow(mb, -1)): norm_c(Fraction(ca) / cb)})
        return self.mul(a, self.inv(b))

    # ---- numeric valuation (filter only, never a proof) ------------------
    def aval(self, aid, k):
        a = self.atoms[aid]
        v = a.vals.get(k)
        if v is None:
            kd = a.kind
            try:
                if kd == 'pi':
                    v = math.pi
                elif kd == 'inv':
                    v = 1 / self.nval(a.args[0], k)
                elif kd == 'sqrt':
                    v = cmath.sqrt(self.nval(a.args[0], k))
                elif kd in ('sin', 'cos', 'asin', 'acos', 'atan', 'exp'):
                    v = getattr(cmath, kd)(self.nval(a.args[0], k))
                elif kd == 'ln':
                    v = cmath.log(self.nval(a.args[0], k))
                elif kd == 'pow':
                    v = self.nval(a.args[0], k) ** self.nval(a.args[1], k)
                else:
                    r = random.Random('%s|%s|%d|%d' % (kd, a.name, a.id, k))
                    v = r.uniform(0.3, 1.7)
            except (ZeroDivisionError, OverflowError, ValueError):
                v = float('nan')
            a.vals[k] = v
        return v

    def nval(self, p, k, mag=False):
        s = 0
        g = 0.0
        for m, c in p.t.items():
            x = float(c)
            for aid, e in m:
                x = x * self.aval(aid, k) ** e
            s += x
            g += abs(x)
        return (s, g) if mag else s

    def maybe_zero(self, p):
        """quick numeric filter: False means certainly not identically zero"""
        if not p.t:
            return True
        if p.is_const():
            return False
        for k in range(2):
            try:
                s, g = self.nval(p, k, True)
            except (ZeroDivisionError, OverflowError):
                return True
            if s != s or g != g:
                return True
            if abs(s) > 1e-7 * g:
                return False
        return True

    def diff(self, a, b):
        """a - b, differences within the precision of the constants removed"""
        d = sub(a, b)
        if any(m in a.t and m in b.t and abs(c) <= CTOL * abs(a.t[m]) for m, c in d.t.items()):
            return Poly({m: c for m, c in d.t.items() if not (m in a.t and m in b.t and abs(c) <= CTOL * abs(a.t[m]))})
        return d

    def equal(self, a, b):
        if a == b:
            return True
        d = self.diff(a, b)
        if not d.t:
            return True
        if not self.maybe_zero(d):
            return False
        return self.is_zero(d)

    # ---- zero test --------------------------------------------------------
    def is_zero(self, p, tol=1e-9):
        """True only if p is identically zero modulo the defining relations of its atoms
        (every coefficient of the normal form vanishes up to `tol` relative to the
        magnitudes that were added up in it)."""
        if not p.t:
            return True
        if p.is_const():
            return False
        d = {m: (c, abs(c)) for m, c in p.t.items()}
        d = self.reduce_pairs(d)
        self.last_exact = all(c == 0 for c, g in d.values())
        return all(abs(c) <= tol * g for c, g in d.values())

    def reduce_pairs(self, d):
        A = self.atoms
        def pmul(d1, d2):
            r = {}
            if len(d1) * len(d2) > LIMIT[0] * 10:
                raise TermError('too large')
            for m1, (c1, g1) in d1.items():
                for m2, (c2, g2) in d2.items():
                    m = mono_mul(m1, m2)
                    x = r.get(m)
                    if x is None:
                        r[m] = (c1 * c2, g1 * g2)
                    else:
                        r[m] = (x[0] + c1 * c2, x[1] + g1 * g2)
            if len(r) > LIMIT[0]:
                raise TermError('too large')
            return r
        def padd(d1, d2):
            r = dict(d1)
            for m, (c, g) in d2.items():
                x = r.get(m)
                r[m] = (c, g) if x is None else (x[0] + c, x[1] + g)
            return r
        def pp(p):
            return {m: (c, abs(c)) for m, c in p.t.items()}
        guard = 0
        while True:
            guard += 1
            if guard > 400:
                raise TermError('reduction does not terminate')
            # drop exact zeros
            d = {m: cg for m, cg in d.items() if cg[0] != 0}
            # clear negative exponents of everything but inverse atoms
            top = None
            lo = {}
            hi = {}
            for m in d:
                for aid, e in m:
                    if e < lo.get(aid, 0):
                        lo[aid] = e
                    if e > hi.get(aid, 0):
                        hi[aid] = e
            fix = []
            for aid, e in lo.items():
                if A[aid].kind == 'inv':
                    # p^-e : expand those
                    nd = {}
                    for m, cg in d.items():
                        ex = dict(m).get(aid, 0)
                        if ex < 0:
                            rest = tuple((a, f) for a, f in m if a != aid)
                            nd = padd(nd, pmul({rest: cg}, pp(self.pow(A[aid].args[0], -ex))))
                        else:
                            nd = padd(nd, {m: cg})
                    d = nd
                    fix = None
                    break
                fix.append((aid, -e))
            if fix is None:
                continue
            if fix:
                fm = tuple(sorted(fix))
                d = {mono_mul(m, fm): cg for m, cg in d.items()}
                continue
            # top-most reducible atom
            cand = [aid for aid, e in hi.items()
                    if A[aid].kind == 'inv' or (A[aid].kind in ('sqrt', 'sin') and e >= 2)]
            if not cand:
                return d
            aid = max(cand)
            a = A[aid]
            parts = {}
            for m, cg in d.items():
                ex = 0
                rest = []
                for b, f in m:
                    if b == aid:
                        ex = f
                    else:
                        rest.append((b, f))
                parts.setdefault(ex, {})[tuple(rest)] = cg
            K = max(parts)
            if a.kind == 'inv':
                base = pp(a.args[0])
                pw = {(): (1, 1)}
                r = {}
                for k in range(K + 1):
                    if K - k in parts:
                        r = padd(r, pmul(parts[K - k], pw))
                    if k < K:
                        pw = pmul(pw, base)
                d = r
            else:
                if a.kind == 'sqrt':
                    base = pp(a.args[0])
                else:
                    cs = self.mk('cos', a.args)
                    base = {(): (1, 1), ((cs.id, 2),): (-1, 1)}
                r = {}
                pw = {(): (1, 1)}
                k = 0
                while 2 * k <= K:
                    for odd in (0, 1):
                        e = 2 * k + odd
                        if e in parts:
                            q = parts[e]
                            if odd:
                                q = {mono_mul(m, ((aid, 1),)): cg for m, cg in q.items()}
                            r = padd(r, pmul(q, pw))
                    k += 1
                    if 2 * k <= K:
                        pw = pmul(pw, base)
                d = r

    def reduce(self, p):
        """normal form multiplied by a nonzero factor is not what we want here: reduce only
        sin^2/sqrt^2 powers, keep the value"""
        A = self.atoms
        for _ in range(60):
            cand = set()
            for m in p.t:
                for aid, e in m:
                    if e >= 2 and A[aid].kind in ('sin', 'sqrt'):
                        cand.add(aid)
            if not cand:
                return p
            aid = max(cand)
            a = A[aid]
            if a.kind == 'sqrt':
                base = a.args[0]
            else:
                cs = self.mk('cos', a.args)
                base = sub(ONE, self.poly(cs, 2))
            keep = {}
            out = ZERO
            groups = {}
            for m, c in p.t.items():
                ex = dict(m).get(aid, 0)
                if ex >= 2:
                    q, odd = divmod(ex, 2)
                    rest = tuple((b, (f if b != aid else odd)) for b, f in m if b != aid or odd)
                    g = groups.setdefault(q, {})
                    g[rest] = g.get(rest, 0) + c
                else:
                    keep[m] = c
            out = Poly(keep)
            for q, g in groups.items():
                out = add(out, self.mul(Poly({m: c for m, c in g.items() if c}), self.pow(base, q)))
            p = out
        return p

    # ---- exact square root of polynomials --------------------------------
    def poly_sqrt(self, p):
        """q with q*q == p for polynomials (no negative exponents), or None"""
        if not p.t:
            return ZERO
        if p.is_const():
            c = Fraction(p.const())
            if c < 0:
                return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return num(Fraction(a, b))
            return None
        n = len(p.t)
        if n > 200:
            return None
        # order monomials lexicographically by dense exponents
        ids = sorted({a for m in p.t for a, e in m})
        if any(e < 0 for m in p.t for a, e in m):
            return None
        def key(m):
            d = dict(m)
            return tuple(d.get(a, 0) for a in ids)
        def lead(q):
            return max(q.t, key=key)
        m = lead(p)
        if any(e % 2 for a, e in m):
            return None
        c = self.poly_sqrt(num(p.t[m]))
        if c is None:
            return None
        q = Poly({tuple((a, e // 2) for a, e in m): c.const()})
        lm = lead(q)
        lc = q.t[lm]
        rem = sub(p, self.mul(q, q))
        for _ in range(30):
            if not rem.t:
                return q
            m = lead(rem)
            mm = mono_mul(m, mono_pow(lm, -1))
            if any(e < 0 for a, e in mm):
                return None
            t = Poly({mm: norm_c(Fraction(rem.t[m]) / (2 * lc))})
            if mm in q.t:
                return None
            rem = sub(rem, add(scale(self.mul(q, t), 2), self.mul(t, t)))
            q = add(q, t)
        return None

    def atoms_of(self, p):
        if p._at is None:
            p._at = frozenset(a for m in p.t for a, e in m)
        return p._at

def show(p, W=None, left=None):
    """text of a term, abbreviated when long"""
    W = W or CUR[0]
    left = left if left is not None else [400]
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items()):
        left[0] -= 1
        if left[0] < 0:
            out.append('...')
            break
        fs = []
        for a, e in m:
            n = aname(W, a, left)
            fs.append(n if e == 1 else '%s^%d' % (n, e))
        cs = str(c)
        if len(cs) > 24:
            cs = '%.17g' % float(c)
        if fs:
            out.append(('' if cs == '1' else cs + '*') + '*'.join(fs))
        else:
            out.append(cs)
        if len(out) > 40:
            out.append('...')
            break
    return ' + '.join(out)

CUR = [None]

def aname(W, aid, left=None):
    left = left if left is not None else [400]
    if W is None:
        return 'a%d' % aid
    a = W.atoms[aid]
    if a.kind in ('var', 'ivar', 'pi'):
        return str(a.name)
    return '%s%s(%s)' % (a.kind, ('.' + str(a.name)) if a.name else '', ', '.join(show(x, W, left) for x in a.args))

_snap = {}
def snap(c, W):
    """real number denoted by an f64 literal"""
    r = _snap.get(c)
    if r is None:
        r = _snap[c] = _snapf(c)
    kind, f = r
    if kind == 'q':
        return num(f)
    if kind == 'pi':
        return scale(W.PIp, f)
    return scale(W.poly(W.PI, -1), f)

def _snapf(c):
    if c == 0:
        return ('q', Fraction(0))
    f = Fraction(c)
    if f.denominator == 1 and abs(f) < 2**53:
        return ('q', f)
    q = f.limit_denominator(1000)
    if q and float(q) == c and abs(q.numerator) < 10**6:
        return ('q', q)
    for s, tag in ((c / math.pi, 'pi'), (c * math.pi, 'ipi')):
        if 1e-3 < abs(s) < 1e4:
            q = Fraction(s).limit_denominator(360)
            v = float(q) * math.pi if tag == 'pi' else float(q) / math.pi
            if q and abs(v - c) <= 4e-16 * abs(c) and abs(q.numerator) <= 1000:
                return (tag, q)
    return ('q', Fraction(repr(c)))
