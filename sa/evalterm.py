"""Separating interpretations: evaluates two normal forms under arbitrary interpretations of their symbols (a model of the
abstract domain, not an execution of the program).  A refutation needs an interpretation that satisfies the facts and
gives the two terms different values; without one a mismatch of normal forms stays undecided."""
import math, random, hashlib, time
from fractions import Fraction
from .terms import *

class Bad(Exception): pass

def prf(seed, *key):
    h = hashlib.md5(repr((seed,) + key).encode()).digest()
    return int.from_bytes(h[:8], 'little')

class Val_:
    def __init__(self, seed, env, maxint=3, lazy=False, pool=(), zero=0):
        self.pool = pool; self.zero = zero
        self.seed = seed; self.env = env; self.cache = {}; self.budget = 400000; self.maxint = maxint; self.lazy = lazy
    def poly(self, p, b=None):
        s = 0
        for m, c in p.t.items():
            x = c
            bools = [a for a, q in m if a.isbool]
            z = False
            for a in bools:
                if not self.atom(a, b): z = True; break
            if z: continue
            for a, q in m:
                if a.isbool: continue
                v = self.atom(a, b)
                if q < 0:
                    if v == 0: raise Bad()
                    v = 1 / Fraction(v) if isinstance(v, (int, Fraction)) else 1.0 / v
                    q = -q
                x = x * (v ** q if q != 1 else v)
                if isinstance(x, Fraction) and x.denominator == 1: x = x.numerator
            s = s + x
        if isinstance(s, float) and (math.isnan(s) or math.isinf(s)): raise Bad()
        if isinstance(s, Fraction) and s.denominator == 1: s = s.numerator
        return s
    def atom(self, a, b):
        key = None
        if not b or not any(x.k == 'cb' for x in a.fv):
            key = a
            if a in self.cache: return self.cache[a]
        v = self._atom(a, b or {})
        if key is not None: self.cache[a] = v
        return v
    def rnd(self, a, *key):
        h = prf(self.seed, *key)
        if a.isbool: return h & 1
        if a.isint:
            if a.nn: return h % (self.maxint + 1)
            return h % (2 * self.maxint + 1) - self.maxint
        if self.zero and (self.zero == 1 or (h >> 40) % 3): return 0      # many zeros among the data
        if self.pool and (h >> 20) % 2:
            c = self.pool[(h >> 8) % len(self.pool)] * (1 if (h >> 21) % 2 else -1)
            return c + Fraction((0, 1, -1, 8, -8)[(h >> 24) % 5], 8)
        return Fraction(h % 33 - 16, 8)
    def _atom(self, a, b):
        self.budget -= 1
        if self.budget < 0 or (self.budget & 4095 == 0 and late()): raise Bad()
        k = a.k
        if k in ('sym', 'v'):
            if a in self.env: return self.env[a]
            if k == 'v':
                if not self.lazy: raise Bad()
                return self.rnd(a, 'v', a.a[0])
            return self.rnd(a, 'sym', a.a[0])
        if k == 'cb': 
            if a in b: return b[a]
            raise Bad()
        if k == 'app':
            args = [self.poly(x, b) for x in a.a[1]]
            if a.a[0] == 'byteof': return (int(args[0]) >> (8 * int(args[1]))) & 255
            if a.a[0] in ('bytes', 'sbytes'):
                v = sum((int(x) & 255) << (8 * i) for i, x in enumerate(args))
                return v - (1 << 8 * len(args)) if a.a[0] == 'sbytes' and v >> (8 * len(args) - 1) else v
            if str(a.a[0]).startswith('byte of'): return prf(self.seed, 'byte', a.a[0], tuple(str(x) for x in args)) % 256
            return self.rnd(a, 'app', a.a[0], tuple(str(x) for x in args))
        if k == 'ge': return 1 if self.tol(self.poly(a.a[0], b)) >= 0 else 0
        if k == 'eq': return 1 if self.tol(self.poly(a.a[0], b)) == 0 else 0
        if k == 'div':
            n, d = self.poly(a.a[0], b), self.poly(a.a[1], b)
            if d == 0: raise Bad()
            return math.trunc(Fraction(n) / Fraction(d))
        if k == 'wrap':
            p = self.poly(a.a[1], b)
            w = int(a.a[0][1:]); p = int(p) % (1 << w)
            if a.a[0][0] == 'i' and p >= 1 << (w - 1): p -= 1 << w
            return p
        if k == 'pinv':
            v = self.poly(a.a[0], b)
            if v == 0: raise Bad()
            return 1 / Fraction(v) if isinstance(v, (int, Fraction)) else 1.0 / v
        if k == 'fn':
            xs = [self.poly(x, b) for x in a.a[1]]
            n = a.a[0]
            try:
                if n in ('exp', 'tanh', 'sqrt', 'log2', 'log', 'sin', 'cos', 'cosh', 'sinh', 'log10', 'expm1', 'log1p'): return getattr(math, n)(float(xs[0]))
                if n in ('trunc', 'ceil', 'floor'): return int(getattr(math, n)(xs[0]))
                if n == 'pow': return float(xs[0]) ** float(xs[1])
            except (ValueError, OverflowError): raise Bad()
            return self.rnd(a, 'fn', n, tuple(str(x) for x in xs))
        if k in ('sum', 'ex', 'first', 'best'):
            m, bounds, body, base = a.a[0], a.a[1], a.a[2], a.a[-1]
            ns = [self.poly(x, b) for x in bounds]
            cbs = [mk('cb', (base + 1 + i,), True, nn=True) for i in range(m)]
            acc = 0; bestv = None; bi = None
            kind = a.a[3] if k == 'best' else None
            for idx in self.box(ns):
                b2 = dict(b); b2.update(zip(cbs, idx))
                v = self.poly(body, b2)
                if k == 'sum': acc = acc + v
                elif k == 'ex':
                    if v: return 1
                elif k == 'first':
                    if v: return idx[a.a[3]]
                else:
                    if bestv is None: better = True
                    elif kind == 'max': better = v > bestv
                    elif kind == 'min': better = v < bestv
                    elif kind == 'maxlast': better = v >= bestv
                    else: better = v <= bestv
                    if better: bestv = v; bi = idx
            if k == 'sum': return acc
            if k == 'ex': return 0
            if k == 'first':      # unspecified, but inside the box
                v = self.rnd(a, 'nofirst', a.key)
                return v % ns[a.a[3]] if ns[a.a[3]] > 0 else v
            if bestv is None: return self.rnd(a, 'nobest', a.key)
            return bestv if a.a[4] == 'val' else bi[a.a[4]]
        if k == 'fold':
            m, bounds, bodies, inits, which, n, ts, base = a.a
            ns = [self.poly(x, b) for x in bounds]
            st = [self.poly(x, b) for x in inits]
            nv = m - n
            cbs = fold_binders(a)
            for idx in self.box(ns):
                b2 = dict(b); b2.update(zip(cbs[:nv], idx)); b2.update(zip(cbs[nv:], st))
                st = [self.poly(x, b2) for x in bodies]
            return st[which]
        raise Bad()
    def tol(self, v):
        if isinstance(v, float) and abs(v) < 1e-9: return 0
        return v
    def box(self, ns):
        """column-major order: first index fastest"""
        tot = 1
        for n in ns: tot *= max(n, 0)
        if tot > 3000: raise Bad()
        if tot <= 0: return
        idx = [0] * len(ns)
        while True:
            yield tuple(idx)
            i = 0
            while i < len(ns):
                idx[i] += 1
                if idx[i] < ns[i]: break
                idx[i] = 0; i += 1
            if i == len(ns): return

def collect(ps):
    fv = set()
    for p in ps: fv |= {x for x in p.fv if x.k in ('sym', 'v')}
    return fv

def comparisons(ps, ints=None):
    """comparison atoms anywhere inside the polynomials"""
    seen = set(); out = []
    def px(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m: ax(a)
        elif isinstance(x, tuple):
            for y in x: px(y)
    def ax(a):
        if a in seen: return
        seen.add(a)
        if a.k in ('ge', 'eq'): out.append(a)
        elif a.k in ('div', 'mod') and ints is not None: ints.update(abs(int(c)) for x in a.a if isinstance(x, Poly) for c in x.t.values() if c == int(c))
        px(a.a)
    for p in ps: px(p)
    return out

def separate(F, d, extra=(), tries=400, seed=1):
    """an interpretation satisfying the facts (and 0/1 terms in extra) under which d != 0; None if none was found"""
    base = [P(g) for g in F.ges]
    pos = [P(e) for e in extra]
    subs = list(F.sub.items())
    d = subst(d, F.sub) if F.sub else d
    bl = list(F.bools.items())
    unk = [g for g in base + [P(b) for b, _ in bl] if any(x[0] in '?$' for x in g.syms())]
    if unk:
        # facts about values the analysis does not know restrict what they mention in an unknown way
        reach = set(collect([d] + pos)); grew = True
        while grew:
            grew = False
            for g in base:
                c = set(collect([g]))
                if c & reach and not c <= reach and g not in unk: reach |= c; grew = True
        if any(set(collect([g])) & reach for g in unk): return None
    syms = sorted(collect(base + pos + [d] + [P(b) for b, _ in bl]), key=lambda a: a.key)
    isy = [s for s in syms if s.isint and not s.isbool]
    sat = 0
    ints = set()
    comps = comparisons([d] + pos, ints)
    for c in comps:
        if c.a[0].isint():
            k = abs(Fraction(c.a[0].t.get((), 0)))
            ints.update(int(abs(x)) for m, x in c.a[0].t.items() if x == int(x) and m != ())
            for x in c.a[0].t.values():
                if k == int(k) and x == int(x) and k % x == 0: ints.add(int(abs(k / x)))
    ints = sorted(x for x in ints if 3 <= x <= 1200)[:12]
    consts = sorted({abs(Fraction(c.a[0].t[()])) for c in comps if () in c.a[0].t} - {0})[:8]
    eqs = [c.a[0] for c in comps if c.k == 'eq' and c.a[0].isint()]
    for t in range(tries):
        if late(): break
        rng = random.Random(seed * 7919 + t)
        hi = 2 + (t % 4)
        env = {}
        for s in syms:
            if s.isbool: env[s] = rng.randint(0, 1)
            elif s.isint: env[s] = rng.randint(0, hi) if (s.nn or rng.random() < 0.8) else rng.randint(-2, hi)
            else: env[s] = Fraction(rng.randint(-16, 16), 8)
        cap = 6
        if ints and isy and t % 2:   # sizes around the constants of the program
            x = rng.choice(ints)
            if x > 20 and rng.random() < .7:
                for s in isy: env[s] = rng.randint(0, 2)
            for s in rng.sample(isy, min(len(isy), rng.randint(1, 2 if x > 20 else 3))): env[s] = x + rng.randint(-1, 2)
            cap = x + 4
        if eqs and t % 3 == 1:       # make some integer equations true
            for e in rng.sample(eqs, min(len(eqs), 3)):
                cand = [s for s in isy if s in e.fv]
                rng.shuffle(cand)
                for s in cand:
                    r = solve_eq(e, {s})
                    if r and r[1].fv <= set(env):
                        try:
                            x = Val_(seed * 31 + t, env).poly(r[1])
                            if x == int(x) and abs(x) < max(60, cap) and (x >= 0 or not s.nn): env[s] = int(x); break
                        except Bad: pass
        pool = consts if consts and t % 2 else ()
        zero = (0, 0, 0, 0, 1, 0, 2, 0)[t % 8]
        if pool:
            for s in syms:
                if not s.isint and rng.random() < .5: env[s] = rng.choice((-1, 1)) * rng.choice(pool) + Fraction(rng.choice((0, 1, -1, 8, -8)), 8)
        try:
            # repair: local search on violated facts
            for rep in range(40):
                V = Val_(seed * 31 + t, env, pool=pool, zero=zero)
                badg = [g for g in base if V.poly(g) < 0]
                if not badg: break
                g = rng.choice(badg)
                cand = [s for s in g.fv if s in env and s.isint and not s.isbool]
                if not cand: break
                s = rng.choice(cand)
                if rng.random() < .5:       # the value that makes it true, when it depends on s linearly
                    lin = [q for q in cand if any(q in dict(m) for m in g.t) and not any(dict(m).get(q, 0) > 1 or (q not in dict(m) and any(q in a.fv for a, _ in m if a.k != 'sym')) for m in g.t)]
                    if lin:
                        s = rng.choice(lin); v0 = V.poly(g)
                        e2 = dict(env); e2[s] = env[s] + 1
                        a = Val_(seed * 31 + t, e2, pool=pool, zero=zero).poly(g) - v0
                        if a:
                            x = env[s] + (math.ceil(-v0 / a) + rng.choice((0, 0, 1, 3)) if a > 0 else -math.ceil(v0 / a) - rng.choice((0, 0, 1)))
                            if (0 if s.nn else -400) <= x <= 400: env[s] = int(x); continue
                env[s] = max(0 if s.nn else -2, min(cap, env[s] + rng.choice((-1, 1, 1, -2, 2) if cap == 6 or rng.random() < .7 else (cap // 2, -(cap // 2)))))
            V = Val_(seed * 31 + t, env, pool=pool, zero=zero)
            if any(V.poly(g) < 0 for g in base): continue
            if any(not V.poly(e) for e in pos): continue
            if any(V.atom(b, None) != v for b, v in bl): continue
            sat += 1
            v = V.poly(d)
            if isinstance(v, float):
                sc = max([abs(float(V.poly(Poly({m: c})))) for m, c in d.t.items()] + [1.0])
                if abs(v) > 1e-6 * sc: return env, v
            elif v != 0: return env, v
        except (Bad, OverflowError, ZeroDivisionError): continue
        except RecursionError: continue
    return None

class Wide(Val_):
    """interpretation by rounded numbers of large magnitude: exponentials underflow to 0 and overflow to infinity"""
    def rnd(self, a, *key):
        if a.isbool or a.isint: return Val_.rnd(self, a, *key)
        h = prf(self.seed, *key)
        return (500.0, -500.0, -800.0, 800.0)[self.maxint if (h >> 9) % 4 else h % 4] + (h >> 20) % 9 / 4
    def poly(self, p, b=None):
        s = 0
        for m, c in p.t.items():
            if any(a.isbool and not self.atom(a, b) for a, q in m): continue
            x = float(c)
            for a, q in m:
                if a.isbool: continue
                v = float(self.atom(a, b))
                for _ in range(abs(q)): x = x * v if q > 0 else (x / v if v != 0 else (math.nan if x == 0 or x != x else math.copysign(math.inf, x)))
            s = s + x
        if isinstance(s, float) and abs(s) < 1e6 and s == int(s) and p.isint(): s = int(s)
        return s
    def _atom(self, a, b):
        if a.k == 'pinv':
            v = float(self.poly(a.a[0], b))
            return math.inf if v == 0 else 1.0 / v
        if a.k == 'fn' and a.a[0] == 'exp':
            v = float(self.poly(a.a[1][0], b))
            return math.inf if v > 709 else math.exp(v)
        return Val_._atom(self, a, b)
def wide(F, got, want, seed=1):
    """an interpretation of large magnitude under which the computed term is not the wanted (finite) number"""
    syms = sorted(collect([got, want] + [P(g) for g in F.ges]), key=lambda a: a.key)
    got, want = [subst(x, F.sub) if F.sub else x for x in (got, want)]
    for t in range(120):
        rng = random.Random(seed * 101 + t)
        env = {s: rng.randint(0, 1) if s.isbool else rng.randint(0, 4) for s in syms if s.isint or s.isbool}
        try:
            if any(Val_(t, env).poly(P(g)) < 0 for g in F.ges): continue
            V = Wide(t, env, maxint=t % 4)
            w = float(V.poly(want))
            if w != w or math.isinf(w): continue
            g = float(V.poly(got))
            if g != g or math.isinf(g) or abs(g - w) > 1e-6 * max(1.0, abs(w)): return env, g, w
        except (Bad, OverflowError, ZeroDivisionError, RecursionError, ValueError): continue
    return None
