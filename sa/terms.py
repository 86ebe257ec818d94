"""Scalar terms of the abstract domain: polynomials over canonical atoms.

Booleans are 0/1-valued polynomials over indicator atoms (idempotent), so propositional structure is canonical
(multilinear form) and `if`/`?:`/`&&` spellings coincide.  Sums, quantifiers and divisions are atoms with canonical
binders.  Two terms are equal in the domain iff their polynomials coincide."""
from fractions import Fraction
from math import gcd
from itertools import permutations, product as iproduct
import hashlib, math, time

DEADLINE = [None]     # processor time at which the current part gives up
WALL = [None]         # wall-clock time at which the whole check gives up
now = time.process_time
def late(): return (DEADLINE[0] is not None and time.process_time() > DEADLINE[0]) or (WALL[0] is not None and time.time() > WALL[0])
class Unsupported(Exception):
    pass

_atoms = {}
_fresh = [0]

def _h(s):
    return hashlib.md5(s.encode()).hexdigest()

class Atom:
    """kinds: sym(name) v(id,prio,name) cb(level) app(name,args) ge(p) eq(p) sum(bounds,body) ex(bounds,body)
    div mod wrap(kind,p) fn(name,args) pinv(p) first(bounds,body,comp) best(...) fold(...) prod"""
    __slots__ = ('k', 'a', 'key', 'isint', 'isbool', 'fv', 'lvl', 'syms', 'nn')
    def __repr__(self):
        return show_atom(self)
    def __lt__(self, o):
        return self.key < o.key

def _argkey(x):
    if isinstance(x, Poly): return 'P' + x.key()
    if isinstance(x, Atom): return 'A' + x.key
    if isinstance(x, tuple): return '(' + ','.join(_argkey(y) for y in x) + ')'
    return repr(x)

def _scan(x, fv, sy):
    l = 0
    if isinstance(x, Poly):
        for m in x.t:
            for at, _ in m:
                fv |= at.fv; sy |= at.syms; l = max(l, at.lvl)
    elif isinstance(x, Atom):
        fv |= x.fv; sy |= x.syms; l = max(l, x.lvl)
    elif isinstance(x, tuple):
        for y in x: l = max(l, _scan(y, fv, sy))
    return l

def mk(k, a, isint=False, isbool=False, nn=False):
    ak = k + '|' + _argkey(a) + ('i' if isint else '') + ('b' if isbool else '')
    at = _atoms.get(ak)
    if at is not None: return at
    at = Atom(); at.k = k; at.a = a; at.isint = isint or isbool; at.isbool = isbool; at.nn = nn or isbool
    pre = {'v': '9', 'cb': '8', 'sym': '0', 'app': '1'}.get(k, '5')
    at.key = pre + k + (str(a) if k in ('sym', 'v', 'cb') else _h(ak)) + ('' if isint or k != 'cb' else 'r')
    fv = set(); sy = set()
    at.lvl = _scan(a, fv, sy)
    if k == 'v': fv.add(at)
    if k == 'cb': at.lvl = a[0]; fv.add(at)
    if k in ('sum', 'ex', 'first', 'best', 'fold'):
        fv = {x for x in fv if not (x.k == 'cb' and a[-1] < x.a[0] <= a[-1] + a[0])}
    if k in ('sym', 'app'): sy.add(a[0])
    if k == 'sym': fv.add(at)
    at.fv = frozenset(fv); at.syms = frozenset(sy)
    _atoms[ak] = at
    return at

def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ('t', '_k', '_fv')
    def __init__(self, t):
        self.t = t; self._k = None; self._fv = None
    def key(self):
        if self._k is None:
            s = '+'.join(sorted(str(c) + '*' + '.'.join(a.key + '^' + str(p) for a, p in m) for m, c in self.t.items()))
            self._k = s if len(s) < 200 else _h(s)
        return self._k
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def __hash__(self):
        return hash(self.key())
    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m: s |= a.fv
            self._fv = frozenset(s)
        return self._fv
    def syms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s |= a.syms
        return s
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def isint(self):
        return all(isinstance(c, int) and all(a.isint and p > 0 for a, p in m) for m, c in self.t.items())
    def isbool01(self):
        return all(a.isbool for m in self.t for a, _ in m)
    def __add__(self, o):
        o = P(o)
        if not self.t: return o
        if not o.t: return self
        t = dict(self.t)
        for m, c in o.t.items():
            r = norm(t.get(m, 0) + c)
            if r == 0: t.pop(m, None)
            else: t[m] = r
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Poly({m: norm(c * k) for m, c in self.t.items()})
    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None: return self.scale(c)
        c = self.const()
        if c is not None: return o.scale(c)
        key = (id(self), id(o))
        r = _mulcache.get(key)
        if r is not None: return r[2]
        if len(self.t) * len(o.t) > 20000: raise Unsupported('term too large')
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _acc(out, _mmul(m1, m2), c1 * c2)
        r = Poly(out)
        if len(_mulcache) > 200000: _mulcache.clear()
        _mulcache[key] = (self, o, r)
        return r
    __rmul__ = __mul__
    def __repr__(self): return show(self)

_mulcache = {}
def _acc(out, p, c):
    """accumulate c * p (p Poly or mono tuple) into out"""
    if isinstance(p, tuple): p = {p: 1}
    else: p = p.t
    for m, k in p.items():
        r = norm(out.get(m, 0) + k * c)
        if r == 0: out.pop(m, None)
        else: out[m] = r

ZERO = Poly({})
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x, 1),): 1})
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Fraction)): return Poly({(): norm(x)}) if x else ZERO
    if isinstance(x, float): return P(Fraction(repr(x)))
    raise TypeError(x)
ONE = Poly({(): 1})

# ---------------------------------------------------------------- monomials
def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, p in m2:
        if a in d:
            if a.isbool: continue
            q = d[a] + p
            if q == 0: del d[a]
            else: d[a] = q
        else: d[a] = p
    m = tuple(sorted(d.items(), key=lambda x: x[0].key))
    nb = sum(1 for a, _ in m if a.k in ('ge', 'eq'))
    if nb and len(m) > 1: return simp_mono(m)
    return m

_smcache = {}
def mono_poly(m): return Poly({m: 1})

def solve_eq(p, vars_=None):
    """p == 0; returns (atom, expr) eliminating the highest-priority atom with unit coefficient, or None"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.k not in ('v', 'sym', 'cb'): continue
            if a.isbool: continue
            if vars_ is not None and a not in vars_: continue
            if any(a in b.fv for m2 in p.t if m2 != m for b, _ in m2): continue
            pr = ({'v': 3, 'cb': 2, 'sym': 0}[a.k], a.a[1] if a.k == 'v' else 0, a.key)
            if best is None or pr > best[0]: best = (pr, a, m, c)
    if best is None: return None
    _, a, m, c = best
    rest = Poly({k: v for k, v in p.t.items() if k != m})
    return a, (-rest if c == 1 else rest)

def simp_mono(m):
    r = _smcache.get(m)
    if r is None:
        r = _simp_mono(m); _smcache[m] = r
    return r

def _simp_mono(m):
    # equality substitution
    for a, _ in m:
        if a.k == 'eq':
            s = solve_eq(a.a[0])
            if s is None: continue
            v, e = s
            others = [x for x in m if x[0] is not a]
            if any(v in x[0].fv for x in others):
                r = P(a)
                for b, pw in others:
                    if v in b.fv:
                        q = subst_atom(b, {v: e})
                        if pw < 0:
                            q = inv(q); pw = -pw
                        for _ in range(pw): r = r * q
                    else:
                        r = r * Poly({((b, pw),): 1})
                return r
    ges = [a for a, _ in m if a.k == 'ge']
    drop = set()
    for i, a in enumerate(ges):
        for b in ges:
            if a is b or a in drop or b in drop: continue
            c = (a.a[0] - b.a[0]).const()
            if c is not None and c >= 0: drop.add(a)   # b>=0 implies a>=0
    eqs = [a for a, _ in m if a.k == 'eq']
    for e in eqs:
        for g in ges:
            if g in drop: continue
            c = (g.a[0] - e.a[0]).const()
            if c is None: c = (g.a[0] + e.a[0]).const()
            if c is not None:
                if c >= 0: drop.add(g)
                else: return ZERO
        for f in eqs:
            if f is not e:
                c = (f.a[0] - e.a[0]).const()
                if c is None: c = (f.a[0] + e.a[0]).const()
                if c: return ZERO
    if drop: return tuple(x for x in m if x[0] not in drop)
    return m

# ---------------------------------------------------------------- constructors
def sym(name, isint=True, isbool=False, nn=False):
    return P(mk('sym', (name,), isint, isbool, nn))
def fresh(name='k', prio=1, isint=True, isbool=False):
    _fresh[0] += 1
    return mk('v', (_fresh[0], prio, name), isint, isbool)

def bool_atoms(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            if a.isbool: s.add(a)
    return s

def assign(p, a, val):
    """p with top-level bool atom a := val(0/1)"""
    out = {}
    for m, c in p.t.items():
        if any(x is a for x, _ in m):
            if val: _acc(out, tuple(x for x in m if x[0] is not a), c)
        else: _acc(out, m, c)
    return Poly(out)

def lift(args, f):
    """apply f to args, Shannon-expanding boolean structure out of the arguments"""
    for x in args:
        if isinstance(x, Poly):
            bs = bool_atoms(x)
            if bs:
                b = min(bs, key=lambda z: z.key)
                a1 = [assign(y, b, 1) if isinstance(y, Poly) else y for y in args]
                a0 = [assign(y, b, 0) if isinstance(y, Poly) else y for y in args]
                r1 = lift(a1, f); r0 = lift(a0, f)
                return P(b) * r1 + (1 - P(b)) * r0
    return f(*args)

def app(name, args=(), isint=False, isbool=False, nn=False):
    args = [P(x) for x in args]
    if isbool: return lift(args, lambda *a: P(mk('app', (name, tuple(a)), True, True)))
    return lift(args, lambda *a: P(mk('app', (name, tuple(a)), isint, False, nn)))

def fn(name, *args):
    def f(*a):
        cs = [x.const() for x in a]
        if all(c is not None for c in cs):
            r = const_fn(name, cs)
            if r is not None: return P(r)
        if name == 'trunc':
            if a[0].isint(): return a[0]
            x = single(a[0])
            if x is not None and x.k == 'fn' and x.a[0] in ('ceil', 'floor', 'trunc'): return a[0]
        if name in ('ceil', 'floor'):
            if a[0].isint(): return a[0]
        return P(mk('fn', (name, tuple(a)), isint=name in ('trunc', 'ceil', 'floor')))
    return lift([P(x) for x in args], f)

def single(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None

def const_fn(name, c):
    x = c[0]
    if name == 'trunc': return math.trunc(x)
    if name == 'ceil': return math.ceil(x)
    if name == 'floor': return math.floor(x)
    if name == 'exp' and x == 0: return 1
    if name == 'tanh' and x == 0: return 0
    if name in ('log2', 'log') and x == 1: return 0
    if name == 'sqrt' and x in (0, 1): return x
    return None

def _prim(p):
    g = 0; d = 1
    for c in p.t.values():
        if isinstance(c, Fraction): d = d * c.denominator // gcd(d, c.denominator)
    for c in p.t.values(): g = gcd(g, int(c * d))
    return Fraction(d, g) if g else Fraction(1)

def lead(p):
    return min((m for m in p.t if m != ()), key=lambda m: (len(m),) + tuple((a.key, q) for a, q in m))

def ge0(p):
    """indicator of p >= 0"""
    return lift([P(p)], _ge0)
def _ge0(p):
    c = p.const()
    if c is not None: return ONE if c >= 0 else ZERO
    d = 1
    for x in p.t.values():
        if isinstance(x, Fraction): d = d * x.denominator // gcd(d, x.denominator)
    q = p.scale(d)
    isint = q.isint()
    g = 0
    for m, x in q.t.items():
        if m != (): g = gcd(g, int(x))
    if isint:
        t = {}
        for m, x in q.t.items():
            if m != (): t[m] = x // g
            else:
                k = math.floor(Fraction(x, g))
                if k: t[m] = k
        q = Poly(t)
        if q.t[lead(q)] < 0:
            return 1 - P(mk('ge', (Poly({m: -x for m, x in q.t.items()}) - 1,), isbool=True))
        return P(mk('ge', (q,), isbool=True))
    l = q.t[lead(q)]
    q = q.scale(Fraction(1, abs(l)))
    if l < 0:
        n = -q
        return 1 - P(mk('ge', (n,), isbool=True)) + _eq0(n)
    return P(mk('ge', (q,), isbool=True))
def eq0(p): return lift([P(p)], _eq0)
def _eq0(p):
    c = p.const()
    if c is not None: return ONE if c == 0 else ZERO
    q = p.scale(_prim(p))
    if q.isint():
        g = 0
        for m, x in q.t.items():
            if m != (): g = gcd(g, int(x))
        if q.t.get((), 0) % g: return ZERO
    if q.t[lead(q)] < 0: q = -q
    # a product of factors is zero iff one of them is: only handled for single monomials
    if len(q.t) == 1:
        (m, _), = q.t.items()
        if len(m) > 1 or m[0][1] != 1:
            r = ONE
            for a, pw in m:
                if pw < 0: continue
                r = r * (1 - eq0(P(a)))
            return 1 - r
    return P(mk('eq', (q,), isbool=True))
def ge(a, b): return ge0(P(a) - b)
def gt(a, b):
    d = P(a) - b
    if d.isint(): return ge0(d - 1)
    return 1 - ge0(-d)
def le(a, b): return ge0(P(b) - a)
def lt(a, b): return gt(b, a)
def eq(a, b): return eq0(P(a) - b)
def ite(c, a, b):
    cc = c.const()
    if cc is not None: return P(a) if cc else P(b)
    a = P(a); b = P(b)
    if a == b: return a
    return c * (a - b) + b
def AND(*xs):
    r = ONE
    for x in xs: r = r * x
    return r
def NOT(x): return 1 - x
def OR(*xs):
    r = ONE
    for x in xs: r = r * (1 - x)
    return 1 - r
def as_bool(p):
    """C++ conversion of a number to bool"""
    if p.isbool01():
        # polynomial over booleans only: already 0/1 valued if it came from boolean operations
        if all(isinstance(c, int) for c in p.t.values()) and _is01(p): return p
    return 1 - eq0(p)
def _is01(p):
    bs = list(bool_atoms(p))
    if len(bs) > 8: return False
    for vals in iproduct((0, 1), repeat=len(bs)):
        q = p
        for b, v in zip(bs, vals): q = assign(q, b, v)
        if q.const() not in (0, 1): return False
    return True
def tabs(x): return ite(ge0(x), x, -P(x))
def tmax(a, b): return ite(lt(a, b), b, a)
def tmin(a, b): return ite(lt(b, a), b, a)

def inv(p):
    def f(p):
        c = p.const()
        if c is not None:
            if c == 0: return P(mk('fn', ('inf', ()), False))
            return P(Fraction(1) / c)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            out = {tuple((a, -q) for a, q in m): norm(Fraction(1) / c)}
            return Poly(out)
        # factor out the common monomial and leading coefficient
        l = p.t[lead(p)]
        q = p.scale(Fraction(1) / l)
        return Poly({((mk('pinv', (q,)), 1),): norm(Fraction(1) / l)})
    return lift([P(p)], f)
def rdiv(a, b): return P(a) * inv(b)

def exact_div(a, b):
    """a / b when b is a single monomial that divides every monomial of a"""
    if len(b.t) != 1: 
        # try quotient a = q*b for constant q
        if a.t and set(a.t) == set(b.t):
            m = next(iter(b.t)); q = Fraction(a.t[m], 1) / b.t[m]
            if b.scale(q) == a: return P(q)
        return None
    (mb, cb), = b.t.items()
    out = {}
    for m, c in a.t.items():
        d = dict(m)
        for x, q in mb:
            if d.get(x, 0) < q: return None
            d[x] -= q
            if d[x] == 0: del d[x]
        k = Fraction(c) / cb
        if k.denominator != 1: return None
        out[tuple(sorted(d.items(), key=lambda z: z[0].key))] = k.numerator
    return Poly(out)

def idiv(a, b):
    def f(a, b):
        ca, cb = a.const(), b.const()
        if cb == 1: return a
        if ca is not None and cb: return P(math.trunc(Fraction(ca) / cb))
        if ca == 0: return ZERO
        e = exact_div(a, b) if b.t else None
        if e is not None: return e
        return P(mk('div', (a, b), True))
    return lift([P(a), P(b)], f)
def imod(a, b):
    """C++ remainder, kept as a - b*(a div b)"""
    a = P(a); b = P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb: return P(int(math.fmod(ca, cb)))
    return a - b * idiv(a, b)

RANGES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
          'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1)}
def strip_wrap(p, minw):
    """remove inner wraps of at least minw bits (modular arithmetic is a ring homomorphism)"""
    out = ZERO; ch = False
    for m, c in p.t.items():
        r = P(c)
        for a, q in m:
            if a.k == 'wrap' and int(a.a[0][1:]) >= minw and q > 0:
                ch = True
                for _ in range(q): r = r * a.a[1]
            else: r = r * Poly({((a, q),): 1})
        out = out + r
    return out if ch else p
def wrap(kind, p):
    """integer p converted to the given machine type.  Values of 32/64 bit signed type are assumed not to overflow."""
    def f(p):
        w = int(kind[1:])
        p = strip_wrap(p, w)
        lo, hi = RANGES[kind]
        c = p.const()
        if c is not None:
            c = int(c)
            if lo <= c <= hi: return P(c)
            c %= 2 ** w
            if c > hi: c -= 2 ** w
            return P(c)
        if kind in ('i32', 'i64'): return p
        a = single(p)
        if a is not None and a.nn and (w >= 32 or a.k == 'app' and str(a.a[0]).startswith(('byte of', 'byteof')) and hi >= 255): return p
        if a is not None and a.k == 'wrap' and a.a[0] == kind: return p
        if a is not None and a.k == 'wrap' and a.a[0][0] == 'u' and int(a.a[0][1:]) < w + (kind[0] == 'u'): return p
        if w >= 32 and all(c > 0 and all(x.nn and q > 0 for x, q in m) for m, c in p.t.items()): return p
        return P(mk('wrap', (kind, p), True, nn=kind[0] == 'u'))
    return lift([P(p)], f)

# ---------------------------------------------------------------- binders
def binder_canon(kind, vars_, bounds, body, extra=()):
    """canonical atom args for a commutative multi-binder"""
    m = len(vars_)
    L = 0
    for mm in body.t:
        for a, _ in mm: L = max(L, a.lvl)
    for b in bounds:
        for mm in b.t:
            for a, _ in mm: L = max(L, a.lvl)
    best = None
    perms = list(permutations(range(m))) if m <= 3 else [tuple(range(m))]
    for perm in perms:
        for rev in iproduct((0, 1), repeat=m) if m <= 3 else [(0,) * m]:
            s = {}; bs = []
            for pos, i in enumerate(perm):
                cb = P(mk('cb', (L + 1 + pos,), True, nn=True))
                s[vars_[i]] = (bounds[i] - 1 - cb) if rev[i] else cb
                bs.append(bounds[i])
            nb = subst(body, s)
            k = '/'.join(b.key() for b in bs) + '|' + nb.key()
            k = (str(len(nb.t)).zfill(3), len(show(nb)) if False else 0, k)
            if best is None or k < best[0]: best = (k, tuple(bs), nb)
    return (m, best[1], best[2], L)

_sumcache = {}
EXPAND = [0]      # sums and quantifiers over at most this many constant values are written out (analysis of an instance)
def expand(k):
    EXPAND[0] = k
    for c in (_sumcache, _substcache): c.clear()
def mksum(v, n, body):
    """Sum_{0<=v<n} body"""
    body = P(body); n = P(n)
    key = (v, n, body)
    r = _sumcache.get(key)
    if r is None:
        r = lift_n([n], body, lambda nn, b: _mksum(v, nn, b)); _sumcache[key] = r
    return r
def lift_n(ns, body, f):
    for x in ns:
        bs = bool_atoms(x)
        if bs:
            b = min(bs, key=lambda z: z.key)
            r1 = lift_n([assign(y, b, 1) for y in ns], body, f)
            r0 = lift_n([assign(y, b, 0) for y in ns], body, f)
            return P(b) * r1 + (1 - P(b)) * r0
    return f(*ns, body)

def _mksum(v, n, body):
    c = n.const()
    if c is not None:
        if c <= 0: return ZERO
        if c == 1: return subst(body, {v: ZERO})
        if EXPAND[0] and c <= EXPAND[0]:
            out = ZERO
            for i in range(int(c)): out = out + subst(body, {v: P(i)})
            return out
    out = ZERO
    for m, c in body.t.items():
        indep = []; dep = []
        for a, q in m: (dep if v in a.fv else indep).append((a, q))
        I = Poly({tuple(indep): c})
        if not dep:
            out = out + I * npos(n); continue
        # delta elimination
        done = False
        for a, q in dep:
            if a.k == 'eq':
                s = solve_eq(a.a[0], {v})
                if s:
                    e = s[1]
                    r = I * ge0(e) * ge0(n - 1 - e)
                    for b, q2 in dep:
                        if b is a: continue
                        t = subst_atom(b, {v: e})
                        if q2 < 0: t = inv(t); q2 = -q2
                        for _ in range(q2): r = r * t
                    out = out + r; done = True; break
        if done: continue
        out = out + I * _sum1(v, n, tuple(dep))
    return out

def npos(n):
    if all(c > 0 and all(x.nn and q > 0 for x, q in m) for m, c in n.t.items()): return n
    return n * ge0(n)

def _sum1(v, n, dep):
    """sum of a single monomial all of whose factors depend on v"""
    # Kronecker style coupling: merge with one inner rectangular sum
    inner = [a for a, q in dep if a.k == 'sum' and q == 1 and not any(v in b.fv for b in a.a[1])]
    if inner:
        a = min(inner, key=lambda z: z.key)
        m, bounds, body, _ = a.a
        vs = [fresh('j', 2) for _ in range(m)]
        body = open_binder(a, vs)
        rest = Poly({tuple(x for x in dep if x[0] is not a): 1})
        full = body * rest
        allv = [v] + vs; allb = [n] + list(bounds)
        return multi_sum(allv, allb, full)
    return sum_atom([v], [n], Poly({dep: 1}))

def multi_sum(vs, bs, body):
    """rectangular sum; splits monomials"""
    out = ZERO
    for m, c in body.t.items():
        out = out + _multi1(vs, bs, m).scale(c)
    return out
def _multi1(vs, bs, m):
    indep = tuple(x for x in m if not any(v in x[0].fv for v in vs))
    dep = tuple(x for x in m if any(v in x[0].fv for v in vs))
    for a, q in dep:
        if a.k == 'eq':
            for i, v in enumerate(vs):
                s = solve_eq(a.a[0], {v})
                if s:
                    e = s[1]
                    r = ge0(e) * ge0(bs[i] - 1 - e)
                    for b, q2 in dep:
                        if b is a: continue
                        t = subst_atom(b, {v: e})
                        if q2 < 0: t = inv(t); q2 = -q2
                        for _ in range(q2): r = r * t
                    vs2 = vs[:i] + vs[i+1:]; bs2 = bs[:i] + bs[i+1:]
                    r = multi_sum(vs2, bs2, r) if vs2 else r
                    return Poly({indep: 1}) * r
    for i, v in enumerate(vs):
        if not any(v in a.fv for a, _ in dep):
            vs2 = vs[:i] + vs[i+1:]; bs2 = bs[:i] + bs[i+1:]
            r = _multi1(vs2, bs2, dep) if vs2 else Poly({dep: 1})
            return Poly({indep: 1}) * r * npos(bs[i])
    return Poly({indep: 1}) * sum_atom(vs, bs, Poly({dep: 1}))
def sum_atom(vs, bs, body):
    a = binder_canon('sum', vs, bs, body)
    isint = body.isint()
    return P(mk('sum', a, isint, nn=all(x.nn and q > 0 for m in body.t for x, q in m)))

def open_binder(a, vs):
    m, bounds, body = a.a[0], a.a[1], a.a[2]
    base = a.a[-1]
    s = {mk('cb', (base + 1 + i,), True, nn=True): P(v) for i, v in enumerate(vs)}
    return subst(body, s)

def mkex(v, n, body):
    """exists 0<=v<n with body (0/1)"""
    body = P(body); n = P(n)
    return lift_n([n], body, lambda nn, b: _mkex([v], [nn], b))
def mkall(v, n, body): return 1 - mkex(v, n, 1 - P(body))
def ex_box(vs, ns, body):
    r = body
    for v, n in reversed(list(zip(vs, ns))): r = mkex(v, n, r)
    return r
def _mkex(vs, ns, body):
    if body.const() == 0: return ZERO
    v, n = vs[0], ns[0]
    c = n.const()
    if c is not None and c <= 0: return ZERO
    if c == 1: return subst(body, {v: ZERO})
    if v not in body.fv: return body * ge0(n - 1)
    if EXPAND[0] and c is not None and c <= EXPAND[0]:
        r = ONE
        for i in range(int(c)): r = r * (1 - subst(body, {v: P(i)}))
        return 1 - r
    # pull out independent boolean structure
    bs = [b for b in bool_atoms(body) if v not in b.fv]
    if bs:
        b = min(bs, key=lambda z: z.key)
        return P(b) * _mkex(vs, ns, assign(body, b, 1)) + (1 - P(b)) * _mkex(vs, ns, assign(body, b, 0))
    if len(body.t) == 1:
        (m, cc), = body.t.items()
        for a, q in m:
            if a.k == 'eq':
                s = solve_eq(a.a[0], {v})
                if s:
                    e = s[1]
                    r = ge0(e) * ge0(n - 1 - e)
                    for b, q2 in m:
                        if b is not a: r = r * subst_atom(b, {v: e})
                    return r
        if len(m) == 1 and m[0][0].k == 'ex' and not any(v in b.fv for b in m[0][0].a[1]):
            a = m[0][0]
            ws = [fresh('j', 2) for _ in range(a.a[0])]
            bd = open_binder(a, ws)
            return P(mk('ex', binder_canon('ex', [v] + ws, [n] + list(a.a[1]), bd), isbool=True))
    return P(mk('ex', binder_canon('ex', [v], [n], body), isbool=True))

def lam_close(vs, bounds, *bodies):
    """canonical closure of ordered binders (no reordering): returns (m, bounds, bodies...) tuple"""
    L = 0
    for body in list(bodies) + list(bounds):
        for mm in body.t:
            for a, _ in mm: L = max(L, a.lvl)
    s = {v: P(mk('cb', (L + 1 + i,), True, nn=True)) for i, v in enumerate(vs)}
    # force the level so that open_binder knows the base
    return (len(vs), tuple(bounds), tuple(subst(b, s) for b in bodies)), L

def first(vs, bounds, body, comp):
    """component comp of the lexicographically first (vs outermost last: flat order x fastest) index with body true"""
    (m, b, (bd,)), L = lam_close(vs, bounds, body)
    at = mk('first', (m, b, bd, comp, L), True, nn=True)
    return P(at)
def best(vs, bounds, body, kind, comp):
    """max/min over the box, or the component of the first extreme position.  comp: 'val' or 0.."""
    if comp == 'val':     # the value at the first extreme position
        return subst(body, {v: best(vs, bounds, body, kind, i) for i, v in enumerate(vs)})
    if EXPAND[0] and all(P(b).const() is not None for b in bounds):
        import itertools
        pos = list(itertools.product(*[range(int(P(b).const())) for b in reversed(list(bounds))]))
        if 1 <= len(pos) <= 12:
            cur = None
            for q in pos:
                q = q[::-1]; v = subst(P(body), {a: P(i) for a, i in zip(vs, q)})
                if cur is None: cur = v, P(q[comp]); continue
                up = v - cur[0] if kind.startswith('max') else cur[0] - v
                c = ge0(up) if kind.endswith('last') else 1 - ge0(-up)
                cur = ite(c, v, cur[0]), ite(c, P(q[comp]), cur[1])
            return cur[1]
    (m, b, (bd,)), L = lam_close(vs, bounds, body)
    return P(mk('best', (m, b, bd, kind, comp, L), comp != 'val' or body.isint(), nn=comp != 'val'))

# ---------------------------------------------------------------- substitution
def subst(p, s):
    if not s: return p
    ks = frozenset(s)
    if not (p.fv & ks): return p
    out = {}
    for m, c in p.t.items():
        hit = False
        for a, _ in m:
            if a.fv & ks: hit = True; break
        if not hit: _acc(out, m, c); continue
        r = P(c)
        for a, q in m:
            if a.fv & ks:
                t = subst_atom(a, s)
                if q < 0: t = inv(t); q = -q
                for _ in range(q): r = r * t
            else: r = r * Poly({((a, q),): 1})
        _acc(out, r, 1)
    return Poly(out)

def rebuild(a, g):
    """rebuild atom a with sub-polynomials mapped by g (binder bodies must be handled by the caller)"""
    k = a.k
    if k == 'app': return app(a.a[0], [g(x) for x in a.a[1]], a.isint and not a.isbool, a.isbool, a.nn)
    if k == 'ge': return ge0(g(a.a[0]))
    if k == 'eq': return eq0(g(a.a[0]))
    if k == 'div': return idiv(g(a.a[0]), g(a.a[1]))
    if k == 'mod': return imod(g(a.a[0]), g(a.a[1]))
    if k == 'wrap': return wrap(a.a[0], g(a.a[1]))
    if k == 'fn': return fn(a.a[0], *[g(x) for x in a.a[1]]) if a.a[1] else P(a)
    if k == 'pinv': return inv(g(a.a[0]))
    return None

def expand_wraps(p):
    """modular conversions of values in the ordinary range written as case distinctions"""
    def mp(p):
        if not has(p): return p
        out = {}
        for m, c in p.t.items():
            r = P(c)
            for a, q in m:
                t = ma(a)
                if q < 0: t = inv(t); q = -q
                for _ in range(q): r = r * t
            _acc(out, r, 1)
        return Poly(out)
    def has(p): return any(hasa(a) for m in p.t for a, _ in m)
    def hasa(a):
        if a.k == 'wrap': return True
        return any(hasx(x) for x in a.a)
    def hasx(x):
        if isinstance(x, Poly): return has(x)
        if isinstance(x, tuple): return any(hasx(y) for y in x)
        return False
    def ma(a):
        if a.k == 'wrap' and a.a[0] in ('u32', 'u64'):
            q = mp(a.a[1])
            return q + (1 - ge0(q)) * 2 ** int(a.a[0][1:])
        if not hasa(a): return P(a)
        r = rebuild(a, mp)
        return r if r is not None else P(a)
    return mp(p)

_substcache = {}
def subst_atom(a, s):
    if a in s: return P(s[a])
    if not (a.fv & frozenset(s)): return P(a)
    key = (a, tuple(sorted(((x.key, P(y)) for x, y in s.items() if x in a.fv), key=lambda z: z[0])))
    r = _substcache.get(key)
    if r is not None: return r
    if len(_substcache) > 300000: _substcache.clear()
    r = rebuild(a, lambda p: subst(p, s))
    if r is None:
        r = rebind(a, lambda p: subst(p, s), None)
    _substcache[key] = r
    return r

def rebind(a, g, facts_cb):
    """rebuild a binder atom: g maps polynomials; facts_cb(vs,bounds) may return another mapping for bodies"""
    m = a.a[0]
    vs = [fresh('j', 2) for _ in range(m)]
    if a.k == 'fold':
        return rebuild_fold(a, vs, g, facts_cb)
    body = open_binder(a, vs)
    nb = [g(b) for b in a.a[1]]
    gb = facts_cb(vs, nb) if facts_cb else g
    body = gb(body)
    if a.k == 'sum':
        r = body
        # rebuild as nested sums (bounds independent of binders)
        for v, n in reversed(list(zip(vs, nb))): r = mksum(v, n, r)
        return r
    if a.k == 'ex':
        return ex_box(vs, nb, body)
    if a.k == 'first':
        return first(vs, nb, body, a.a[3])
    if a.k == 'best':
        return best(vs, nb, body, a.a[3], a.a[4])
    raise Unsupported('rebind ' + a.k)

# fold: scalar state carried through the box in column-major order
# ('fold', (nvars + nleaf, bounds, bodies, inits, which, nleaf, types, base)); the leaves are the last nleaf binders
def _cbn(i, t):
    return mk('cb', (i,), True, nn=True) if t == 'n' else mk('cb', (i, t), t == 'i', t == 'b')
def mkfold(vs, bounds, leaves, inits, trans, which):
    """leaves: placeholder atoms (scalar state); trans[i] polynomial over leaves and vs; value of leaf `which` after all iterations"""
    n = len(leaves)
    types = tuple('b' if l.isbool else 'i' if l.isint else 'r' for l in leaves)
    L = 0
    for body in list(trans) + list(bounds):
        for mm in body.t:
            for a, _ in mm: L = max(L, a.lvl)
    ts = 'n' * len(vs) + ''.join(types)
    s = {v: P(_cbn(L + 1 + i, ts[i])) for i, v in enumerate(list(vs) + list(leaves))}
    bodies = tuple(subst(b, s) for b in trans)
    t = types[which]
    return P(mk('fold', (len(ts), tuple(P(b) for b in bounds), bodies, tuple(P(x) for x in inits), which, n, ts, L), t == 'i', t == 'b'))
def fold_binders(a): return [_cbn(a.a[-1] + 1 + i, t) for i, t in enumerate(a.a[6])]
def rebuild_fold(a, vs, g, facts_cb):
    m, bounds, bodies, inits, which, n, ts, base = a.a
    ws = [fresh('j', 2) if t == 'n' else fresh('j', 2, t == 'i', t == 'b') for t in ts]
    s = {c: P(w) for c, w in zip(fold_binders(a), ws)}
    nb = [g(b) for b in bounds]; ni = [g(x) for x in inits]
    gb = facts_cb(ws[:len(bounds)], nb) if facts_cb else g
    tr = [gb(subst(b, s)) for b in bodies]
    return mkfold(ws[:m - n], nb, ws[m - n:], ni, tr, which)

def show_atom(a):
    k = a.k
    if k == 'sym': return a.a[0]
    if k == 'v': return a.a[2] + '_' + str(a.a[0])
    if k == 'cb': return 'i' + str(a.a[0])
    if k == 'app': return a.a[0] + '(' + ', '.join(show(x) for x in a.a[1]) + ')'
    if k == 'ge': return '[' + show(a.a[0]) + ' >= 0]'
    if k == 'eq': return '[' + show(a.a[0]) + ' == 0]'
    if k == 'div': return '(' + show(a.a[0]) + ' div ' + show(a.a[1]) + ')'
    if k == 'mod': return '(' + show(a.a[0]) + ' mod ' + show(a.a[1]) + ')'
    if k == 'wrap': return a.a[0] + '(' + show(a.a[1]) + ')'
    if k == 'fn': return a.a[0] + '(' + ', '.join(show(x) for x in a.a[1]) + ')'
    if k == 'pinv': return '1/(' + show(a.a[0]) + ')'
    if k in ('sum', 'ex', 'first', 'best'):
        base = a.a[-1]
        return ({'sum': 'Sum', 'ex': 'Exists', 'first': 'First', 'best': 'Best'}[k]) + '{' + ', '.join('i%d<%s' % (base + 1 + i, show(b)) for i, b in enumerate(a.a[1])) + '}(' + show(a.a[2]) + ')' + (str(a.a[3:]) if len(a.a) > 3 else '')
    if k == 'fold': return 'Fold{' + ','.join(show(b) for b in a.a[1]) + '}(' + ';'.join(show(b) for b in a.a[2]) + ' from ' + ','.join(show(b) for b in a.a[3]) + ')#%d' % a.a[4]
    return k + str(a.a)
def show(p):
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: [(a.key, q) for a, q in x[0]]):
        fs = [show_atom(a) + ('' if q == 1 else '^%d' % q) for a, q in m]
        if c != 1 or not fs: fs.insert(0, str(c))
        out.append('*'.join(fs))
    return ' + '.join(out)
