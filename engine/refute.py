"""Numeric counterexamples for failed obligations (never used to prove)."""
import math, random, hashlib
import z3
from solver import is_int

class Point:
    def __init__(self, eng, rnd, model=None, bias=None):
        self.e = eng
        self.W = eng.W
        self.rnd = rnd
        self.model = model or {}
        self.v = {}
        self.bias = bias
        self.ufs = {}

    def atom(self, aid):
        r = self.v.get(aid)
        if r is None:
            r = self.v[aid] = self.calc(aid)
        return r

    def calc(self, aid):
        a = self.W.atoms[aid]
        k = a.kind
        if k == 'pi':
            return math.pi
        if k in ('var', 'ivar'):
            if aid in self.model:
                return self.model[aid]
            if k == 'ivar':
                hi = 6 if a.extra is None else min(6, a.extra)
                return self.rnd.randint(0, hi)
            lo, hi = self.e.ranges.get(aid, (-3.0, 3.0))
            t = self.rnd.random()
            if t < 0.55:
                return self.rnd.uniform(lo, hi)
            if t < 0.7:
                x = self.rnd.choice([0.0, 1.0, -1.0, lo, hi, (lo + hi) / 2])
            elif t < 0.8:
                x = float(self.rnd.randint(-4, 4))
            elif t < 0.9:
                x = self.rnd.choice((-1, 1)) * max(abs(lo), abs(hi)) * 10 ** (-12 * self.rnd.random())
            else:
                prev = [y for b, y in self.v.items() if self.W.atoms[b].kind == 'var']
                x = self.rnd.choice(prev) if prev else 0.0
            return x if lo <= x <= hi else self.rnd.uniform(lo, hi)
        args = [self.poly(p)[0] for p in a.args]
        if k in ('uf', 'sel'):
            key = (k, a.name, tuple(round(x, 9) for x in args))
            if key in self.ufs:
                return self.ufs[key]
            if aid in self.model:
                r = self.model[aid]
            else:
                h = random.Random(repr(key) + str(self.rnd.random() if k == 'uf' else self.v.setdefault('salt', self.rnd.random())))
                r = h.randint(0, 5) if is_int(a) else h.uniform(-2, 2)
                if k == 'sel' and self.e.sh.inst.get(a.name) == 'sorted':
                    r = args[0] + h.uniform(0, 0.9)
            self.ufs[key] = r
            return r
        x = args[0]
        if k == 'inv':
            return 1 / x
        if k == 'sqrt':
            return math.sqrt(x)
        if k == 'ln':
            return math.log(x)
        if k == 'pow':
            return x ** args[1]
        return getattr(math, k)(x)

    def poly(self, p):
        s = 0.0
        g = 0.0
        for m, c in p.t.items():
            x = float(c)
            for aid, e in m:
                x *= self.atom(aid) ** e
            s += x
            g += abs(x)
        if s != s or s in (math.inf, -math.inf):
            raise ValueError
        return s, g

    def holds(self, c, tol):
        """three-valued: True / False only when clear of rounding"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'and':
            a, b = self.holds(c[1], tol), self.holds(c[2], tol)
            return False if a is False or b is False else True if a and b else None
        if k == 'or':
            a, b = self.holds(c[1], tol), self.holds(c[2], tol)
            return True if a or b else False if a is False and b is False else None
        s, g = self.poly(c[1])
        t = tol * g
        if k == 'lt':
            return True if s < -t else False if s > t or (s == 0 and g == 0) else None
        if k == 'le':
            return True if s < -t or (s == 0 and g == 0) else False if s > t else None
        z = True if (s == 0 and g == 0) else False if abs(s) > t else None
        if z is None and abs(s) <= 1e-13 * g:
            z = True
        return z if k == 'eq' else (None if z is None else not z)

def z3_model(eng, conds):
    sh = eng.sh
    W = eng.W
    used = set()
    fs = [sh.cond(c, used) for c in conds]
    fs += sh.axioms(None, used)
    s = z3.Solver()
    s.set('rlimit', 3000000)
    s.add(*fs)
    try:
        if s.check() != z3.sat:
            return None
        m = s.model()
    except z3.Z3Exception:
        return None
    out = {}
    for aid in used:
        if aid < 0:
            continue
        if W.atoms[aid].kind in ('var', 'ivar', 'uf', 'sel'):
            v = m.eval(sh.ivar(aid) if is_int(W.atoms[aid]) else sh.var(aid), model_completion=False)
            try:
                if z3.is_int_value(v):
                    out[aid] = v.as_long()
                elif z3.is_rational_value(v):
                    out[aid] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    out[aid] = float(v.approx(20).as_fraction())
            except Exception:
                pass
    return out

def refute(eng, neg, samples=3000):
    """a point where every path condition and `neg` hold, as {input name: value}"""
    pc = list(eng.ps.pc)
    best = None
    model = z3_model(eng, pc + [neg])
    for it in range(samples):
        rnd = random.Random(it * 7919 + 1)
        p = Point(eng, rnd, model if model and it < 60 else None)
        try:
            if p.holds(neg, 1e-9) is not True:
                continue
            ok = True
            for c in pc:
                if p.holds(c, 1e-13) is not True:
                    ok = False
                    break
            if ok:
                best = p
                break
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
    names = {}
    if best is not None or model:
        src = best.v if best is not None else model
        for aid, v in src.items():
            if isinstance(aid, int) and eng.W.atoms[aid].kind in ('var', 'ivar'):
                nm = eng.W.atoms[aid].name
                names[nm[2:] if nm.startswith('b!') else nm] = v
    return best is not None, names
