from fractions import Fraction
"""Numeric facts (conjunctions of polynomial inequalities, equalities and boolean literals), entailment by bounded
linear-multiplier search, simplification of terms under facts, and equality of terms with case splitting."""
import random, time
from .terms import *
from . import terms as T

class Contradiction(Exception): pass

POOL = []
def reduce_mod(d, p):
    """d modulo p == 0, by rewriting p's longest monomial"""
    if len(p.t) < 2: return d
    m0 = max(p.t, key=lambda m: (sum(q for _, q in m), str([a.key for a, _ in m])))
    if len(m0) < 2 or any(q < 0 for _, q in m0): return d
    c0 = p.t[m0]
    rest = (Poly({m0: c0}) - p).scale(Fraction(1) / c0)
    for _ in range(6):
        out = ZERO; hit = False
        for m, c in d.t.items():
            ex = dict(m)
            if all(ex.get(a, 0) >= q for a, q in m0):
                left = Poly({(): c})
                for a, q in m:
                    q -= dict(m0).get(a, 0)
                    if q: left = left * Poly({((a, q),): 1})
                out = out + left * rest; hit = True
            else: out = out + Poly({m: c})
        d = out
        if not hit: break
    return d

class Facts:
    def __init__(self, ges=(), sub=None, bools=None):
        self.ges = tuple(ges); self.sub = dict(sub or {}); self.bools = dict(bools or {})
        self._memo = {}; self._simp = {}; self._key = None; self._samp = None; self._dead = None
    def key(self):
        if self._key is None:
            self._key = hash((self.ges, tuple(sorted((a.key, p.key()) for a, p in self.sub.items())), tuple(sorted((a.key, v) for a, v in self.bools.items()))))
        return self._key
    # ------------------------------------------------------------ extension
    def add_ge(self, *ps):
        g = list(self.ges)
        for p in ps:
            p = self.simplify(P(p))
            c = p.const()
            if c is not None: continue
            if p not in g: g.append(p)
        if len(g) == len(self.ges): return self
        return Facts(g, self.sub, self.bools)
    def upto(self, v, n):
        """0 <= v < n; when n is a choice between bounds, also the bounds that are never the smaller ones' losers"""
        out = [P(v), P(n) - 1 - P(v)]
        if bool_atoms(P(n)):
            lv = []
            def rec(p, F):
                bs = bool_atoms(p)
                if not bs or len(lv) > 8: lv.append((p, F)); return
                b = min(bs, key=lambda z: z.key)
                rec(assign(p, b, 1), F.assume(P(b))); rec(assign(p, b, 0), F.assume(1 - P(b)))
            rec(P(n), self)
            if len(lv) <= 8:
                for p in {q for q, _ in lv}:
                    if all(G.prove_ge(p - q) for q, G in lv if q != p): out.append(p - 1 - P(v))
        return self.add_ge(*out)
    def range(self, v, n):
        return self.add_ge(P(v), P(n) - 1 - P(v))
    def assume(self, c):
        """facts implied by the 0/1 term c"""
        c = self.simplify(P(c))
        if c.const() is not None: return self
        F = self
        changed = True; rounds = 0
        while changed and rounds < 4:
            changed = False; rounds += 1
            for b in sorted(bool_atoms(c), key=lambda z: z.key):
                if not assign(c, b, 0).t: F = F._lit(b, 1); changed = True
                elif not assign(c, b, 1).t: F = F._lit(b, 0); changed = True
                if changed: break
            if changed:
                c = F.simplify(c)
                if c.const() is not None: break
                rounds = 0 if len(F.ges) + len(F.bools) + len(F.sub) < 200 else 99
        # what is not a conjunction is kept as a condition on interpretations
        return F if c.const() is not None else F._keep(c)
    def _keep(self, c): return Facts(self.ges, self.sub, {**self.bools, mk('eq', (P(c) - 1,), True, True): 1})
    def _lit(self, b, v):
        if b.k == 'ge':
            p = b.a[0]
            q = p if v else ((-p - 1) if p.isint() else -p)
            F = Facts(self.ges + ((q,) if q not in self.ges else ()), self.sub, self.bools)
            if not p.isint(): F.bools[b] = v
            # p >= 0 and p <= 0 gives an equality
            if p.isint() and F.prove_ge(-q): return F._eq(q)
            return F
        if b.k == 'eq':
            if v: return self._eq(b.a[0])
            F = Facts(self.ges, self.sub, self.bools); F.bools[b] = 0
            p = b.a[0]
            if p.isint():
                if F.prove_ge(p): return Facts(F.ges + (p - 1,), F.sub, F.bools)
                if F.prove_ge(-p): return Facts(F.ges + (-p - 1,), F.sub, F.bools)
            return F
        if b.k == 'ex' and not v:
            return Facts(self.ges, self.sub, {**self.bools, b: 0})
        F = Facts(self.ges, self.sub, {**self.bools, b: v})
        return F
    def _eq(self, p):
        s = solve_eq(p)
        if s is None:
            # boolean structure is kept as a literal
            F = Facts(self.ges + (p, -p), self.sub, self.bools)
            at = single(eq0(p))
            if at is not None: F.bools[at] = 1
            return F
        a, e = s
        m = {a: e}
        sub = {x: subst(q, m) for x, q in self.sub.items()}; sub[a] = e
        ges = []
        for g in self.ges:
            h = subst(g, m)
            if h.const() is None and h not in ges: ges.append(h)
        if a.nn and not e.const() and e not in ges: ges.append(e)
        bools = {}
        for b, v in self.bools.items():
            nb = subst_atom(b, m); sb = single(nb)
            if sb is not None: bools[sb] = v
            elif nb.const() is None: bools[mk('eq', (nb - v,), True, True)] = 1
        return Facts(ges, sub, bools)

    # ------------------------------------------------------------ entailment
    def nonneg_atom(self, a):
        if a.nn: return True
        if a.k == 'wrap' and a.a[0][0] == 'u': return True
        key = ('nn', a)
        r = self._memo.get(key)
        if r is None:
            r = False
            for g in self.ges:
                m = ((a, 1),)
                if g.t.get(m) == 1 and all((x == m) or (x == () and c <= 0) or (x != () and c < 0 and all(y.nn for y, _ in x)) for x, c in g.t.items()): r = True; break
                if g.t.get(m, 0) > 0 and all((x == m) or (x == () and c <= 0) for x, c in g.t.items()): r = True; break
            if not r and a.k in ('div', 'mod'):
                self._memo[key] = False
                n, d = a.a
                r = self.prove_ge(n) and (a.k == 'mod' or self.prove_ge(d))
            if not r and a.k == 'fn' and a.a[0] in ('exp', 'sqrt'): r = True
            if not r and len(self.ges) < 60 and a.k in ('v', 'sym'):
                self._memo[key] = False
                r = self._search(P(a), 200)
            self._memo[key] = r
        return r
    def nonneg_mono(self, m):
        for a, q in m:
            if q % 2 == 0: continue
            if not self.nonneg_atom(a): return False
        return True
    def prove_ge(self, p):
        p = P(p)
        if self.sub: p = subst(p, self.sub)
        r = self._memo.get(p)
        if r is None:
            self._memo[p] = False
            if bool_atoms(p):
                b = min(bool_atoms(p), key=lambda z: z.key)
                v = self.decide(b)
                if v is not None: r = self.prove_ge(assign(p, b, v))
                else: r = self.prove_ge(assign(p, b, 0)) and self.prove_ge(assign(p, b, 1))
            else: r = self._search(p)
            self._memo[p] = r
        return r
    def aux_facts(self, p, seen):
        """facts about division atoms occurring in p"""
        out = []
        for m in p.t:
            for a, q in m:
                if a in seen: continue
                seen.add(a)
                if a.k in ('div', 'mod'):
                    n, d = a.a
                    if self.prove_ge(d - 1) and self.prove_ge(n):
                        if a.k == 'div':
                            out += [n - P(a) * d, P(a) * d + d - 1 - n, P(a)]
                        else:
                            out += [d - 1 - P(a), P(a), n - P(a)]
                        for o in list(out): out += self.aux_facts(o, seen)
                elif a.k in ('first', 'best') and a.a[-2] != 'val':
                    comp = a.a[3] if a.k == 'first' else a.a[4]
                    if isinstance(comp, int): out += [a.a[1][comp] - 1 - P(a)]   # valid when the box is not empty
                elif a.k == 'wrap' and a.a[0] == 'u8' or a.k == 'app' and str(a.a[0]).startswith(('byte of', 'byteof')): out += [255 - P(a)]
                elif a.k == 'wrap' and a.a[0] == 'i8': out += [127 - P(a), P(a) + 128]
        return out
    def samples(self):
        """a few interpretations satisfying the facts (only used to give up early on unprovable goals)"""
        if self._samp is None:
            from .evalterm import Val_, Bad
            out = []
            ges = [g for g in self.ges]
            # equalities are solved first
            have = set(ges); elim = []
            red = ges
            for g in ges:
                if -g in have and not bool_atoms(g):
                    h = g
                    for a, e in elim: h = subst(h, {a: e})
                    if h.const() is not None: continue
                    r = solve_eq(h)
                    if r is None or r[0].k not in ('sym', 'v'): continue
                    elim.append(r)
                    red = [subst(x, {r[0]: r[1]}) for x in red]
            if elim:
                red = [x for x in red if x.const() is None]
                for a, e in elim:
                    if a.nn: 
                        for b2, e2 in elim: e = subst(e, {b2: e2})
                        red.append(e)
            red = list(dict.fromkeys(red))
            def ok(V):
                for g in ges:
                    if V.poly(g) < 0: return False
                return True
            for env in POOL[-40:][::-1]:
                try:
                    V = Val_(1, env, lazy=True)
                    if ok(V): out.append(V)
                except (Bad, OverflowError): pass
                if len(out) >= 4: break
            rng = random.Random(len(ges) * 31 + len(POOL))
            tries = 0
            while len(out) < 3 and tries < 6:
                tries += 1
                env = dict(rng.choice(POOL[-8:])) if POOL and tries % 2 else {}
                hi = rng.randint(2, 5)
                for g in red:
                    for x in g.fv:
                        if x not in env and x.k in ('sym', 'v') and not x.isbool: env[x] = rng.randint(0, hi) if x.isint else Fraction(rng.randint(-8, 8), 4)
                try:
                    for rep in range(30):
                        V = Val_(1, env, lazy=True)
                        bad = [g for g in red if V.poly(g) < 0]
                        if not bad: break
                        g = rng.choice(bad)
                        cand = [x for x in g.fv if x in env and x.isint]
                        if not cand: break
                        # move one variable so that the violated fact improves
                        x = rng.choice(cand); best_ = None
                        for dlt in (1, -1, 2, -2, 4, -4):
                            nv = env[x] + dlt
                            if x.nn and nv < 0: continue
                            env2 = dict(env); env2[x] = nv
                            sc = Val_(1, env2, lazy=True).poly(g)
                            if best_ is None or sc > best_[0]: best_ = (sc, nv)
                        if best_: env[x] = best_[1]
                    for a, e in elim[::-1]: env[a] = Val_(1, env, lazy=True).poly(e)
                    if any(a.isint and env[a] != int(env[a]) for a, e in elim): continue
                    V = Val_(1, env, lazy=True)
                    if ok(V): out.append(V); POOL.append(env)
                except (Bad, OverflowError, RecursionError): pass
            if len(POOL) > 400: del POOL[:200]
            self._samp = out
        return self._samp
    def falsified(self, p):
        """an interpretation of the facts in which p < 0 (found by descending from the samples), i.e. p >= 0 is not entailed"""
        from .evalterm import Bad, Val_
        samp = self.samples()
        for V in samp:
            try:
                V.budget = 20000
                if V.poly(p) < 0: return True
            except (Bad, OverflowError, RecursionError): pass
        fv = [x for x in p.fv if x.k in ('sym', 'v') and x.isint and not x.isbool]
        if not fv or len(self.ges) > 80: return False
        for V in samp[:2]:
            env = dict(V.env); 
            try:
                cur = V.poly(p)
                for rnd in range(4):
                    best_ = None
                    for x in sorted(fv, key=lambda z: z.key):
                        if x not in env: continue
                        for nv in sorted({env[x] - 1, env[x] + 1, 0, 1}):
                            if nv == env[x] or (x.nn and nv < 0): continue
                            e2 = dict(env); e2[x] = nv
                            V2 = Val_(1, e2, lazy=True)
                            sc = V2.poly(p)
                            if sc >= cur or (best_ and sc >= best_[0]): continue
                            if all(V2.poly(g) >= 0 for g in self.ges): best_ = (sc, e2, V2)
                    if best_ is None: break
                    cur, env, V2 = best_
                    if cur < 0:
                        samp.append(V2); POOL.append(env)
                        if len(samp) > 14: del samp[2]
                        return True
            except (Bad, OverflowError, RecursionError): pass
        return False
    def dead(self):
        """the facts are contradictory (derived: -1 >= 0)"""
        if self._dead is None:
            self._dead = False
            if not self.samples():
                bl = set()
                for g in self.ges: bl |= bool_atoms(g)
                def split(ges, bl):
                    if not bl or len(bl) > 3:
                        F = Facts(tuple(ges), {}, {}); F._dead = False
                        return F._derive(P(-1), 500)
                    for v in (0, 1):
                        hs = [assign(g, bl[0], v) for g in ges]
                        if any(h.const() is not None and h.const() < 0 for h in hs): continue
                        if not split([h for h in hs if h.const() is None], bl[1:]): return False
                    return True
                self._dead = split(list(self.ges), sorted(bl, key=lambda z: z.key))
        return self._dead
    def _search(self, p, budget=1500):
        c = p.const()
        if c is not None: return c >= 0
        if self.falsified(p): return False
        if self.dead(): return True
        # v >= c: in terms of v - c >= 0 every coefficient may be non-negative
        sh = {}
        for g in self.ges:
            c0 = g.t.get((), 0)
            if len(g.t) == 2 and c0 < 0:
                (m, c1), = [(m, k) for m, k in g.t.items() if m != ()]
                if c1 == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].k in ('sym', 'v') and not m[0][0].isbool: sh[m[0][0]] = max(sh.get(m[0][0], 0), -c0)
        if len(sh) > 1 and any(sum(q for _, q in m) > 2 for m in p.t):
            q = subst(p, {a: P(a) + k for a, k in sh.items()})
            if all(c >= 0 and all(a.nn or a in sh or k % 2 == 0 for a, k in m) for m, c in q.t.items()): return True
        if self._derive(p, budget): return True
        # a quotient bounded by a whole number: compare the dividend with the multiple of the divisor
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'div' and c in (1, -1):
                a = m[0][0]; rest = p - P(a).scale(c)
                if any(a is x for q in rest.t for x, _ in q) or not rest.isint(): continue
                nn, d = a.a
                if not (self.prove_ge(d - 1) and self.prove_ge(nn)): continue
                if self.prove_ge((rest + 1) * d - 1 - nn if c == -1 else nn + rest * d): return True
        return False
    def _derive(self, p, budget):
        seen = set()
        facts = list(self.ges)
        extra = self.aux_facts(p, seen)
        for g in self.ges: extra += self.aux_facts(g, seen)
        facts += [e for e in extra if e not in facts]
        bl = set()
        for g in self.ges: bl |= bool_atoms(g)
        facts += [1 - P(x) for x in bl]
        idx = []
        for g in facts:
            for m, c in g.t.items():
                if c < 0: idx.append((m, c, g))
        idx.sort(key=lambda x: -len(x[0]))
        pidx = [(gm, gc, g) for g in facts for gm, gc in g.t.items() if gc > 0 and gm != ()]
        cut = [False]
        def rec(p, d):
            neg = [(m, c) for m, c in p.t.items() if c < 0 or not self.nonneg_mono(m)]
            if not neg: return True
            if d == 0 or cnt[0] <= 0: cut[0] = True; return False
            if visited.get(p, -1) >= d: return False
            visited[p] = d
            # pick the negative monomial of highest degree
            neg.sort(key=lambda mc: (-sum(q for _, q in mc[0]), str([a.key for a, _ in mc[0]])))
            for m, c in neg[:3]:
                if c > 0:
                    # positive coefficient of a possibly negative monomial: needs a lower bound; use facts with positive coefficient
                    for gm, gc, g in pidx:
                        u = mono_div(m, gm)
                        if u is None or not self.nonneg_mono(u): continue
                        cnt[0] -= 1
                        if cnt[0] <= 0: cut[0] = True; return False
                        if rec(p - g * Poly({u: norm(Fraction(c) / gc)}), d - 1): return True
                    continue
                for gm, gc, g in idx:
                    if gm == () and m != ():
                        if not any(gc2 > 0 and p.t.get(T._mmul(pm, m) if not any(a.isbool for a, _ in pm + m) else None, 0) > 0 for pm, gc2 in g.t.items()): continue
                    u = mono_div(m, gm)
                    if u is None or not self.nonneg_mono(u): continue
                    cnt[0] -= 1
                    if cnt[0] <= 0: cut[0] = True; return False
                    if rec(p - g * Poly({u: norm(Fraction(c) / gc)}), d - 1): return True
            return False
        # shallow derivations first
        for depth, bud in ((1, 100), (2, 150), (3, 200), (5, 200), (9, 250)):
            cnt = [min(bud, budget)]; visited = {}; cut[0] = False
            if rec(p, depth): return True
            if not cut[0]: return False
        return False

    def decide(self, b):
        """truth value of a boolean atom, or None"""
        if T.late(): raise Unsupported('time limit of the analysis')
        v = self.bools.get(b)
        if v is not None: return v
        key = ('dec', b)
        if key in self._memo: return self._memo[key]
        self._memo[key] = None
        r = None
        if b.k == 'ge':
            p = b.a[0]
            if self.prove_ge(p): r = 1
            elif p.isint():
                if self.prove_ge(-p - 1): r = 0
        elif b.k == 'eq':
            p = b.a[0]
            if p.isint():
                if self.prove_ge(p - 1) or self.prove_ge(-p - 1): r = 0
                elif self.prove_ge(p) and self.prove_ge(-p): r = 1
        self._memo[key] = r
        return r

    # ------------------------------------------------------------ simplification
    def simplify(self, p):
        p = P(p)
        if not p.t or p.const() is not None: return p
        r = self._simp.get(p)
        if r is not None: return r
        q = p
        for _ in range(6):
            n = self._simp1(q)
            if n == q: break
            q = n
        self._simp[p] = q; self._simp[q] = q
        return q
    def _simp1(self, p):
        if self.sub: p = subst(p, self.sub)
        out = {}
        for m, c in p.t.items():
            r = P(c); zero = False
            for a, q in m:
                t = self.simp_atom(a)
                if q < 0: t = inv(t); q = -q
                for _ in range(q): r = r * t
                if not r.t: zero = True; break
            if not zero: T._acc(out, r, 1)
        p = Poly(out)
        # indicators implied by the other indicators of the same monomial
        out = {}
        for m, c in p.t.items():
            bs = [a for a, _ in m if a.isbool]
            if len(bs) > 1:
                m2 = self.simp_inds(m, bs)
                if m2 is None: continue
                if isinstance(m2, Poly): T._acc(out, m2, c)
                else: T._acc(out, m2, c)
            else: T._acc(out, m, c)
        return Poly(out)
    def simp_inds(self, m, bs):
        key = ('inds', m)
        if key in self._memo: return self._memo[key]
        cur = list(bs)
        i = 0; res = m
        base = self
        while i < len(cur):
            b = cur[i]
            if b.k not in ('ge', 'eq'): i += 1; continue
            g = []; eqs = []
            for o in cur:
                if o is b: continue
                if o.k == 'ge': g.append(o.a[0])
                elif o.k == 'eq': g += [o.a[0], -o.a[0]]
            F = Facts(self.ges + tuple(g), {}, {})
            v = F.decide(b) if g else None
            if v == 0 or F._dead: self._memo[key] = None; return None
            if v == 1 and b.k == 'ge': cur.pop(i); continue
            i += 1
        if len(cur) != len(bs):
            keep = set(cur)
            res = tuple(x for x in m if not x[0].isbool or x[0] in keep)
        # two opposite non-strict inequalities make an equality
        ges = [b for b in cur if b.k == 'ge' and b.a[0].isint()]
        for i, a in enumerate(ges):
            for b in ges[i + 1:]:
                if (a.a[0] + b.a[0]).const() == 0:
                    rest = Poly({tuple(x for x in res if x[0] is not a and x[0] is not b): 1})
                    r = rest * eq0(a.a[0])
                    self._memo[key] = r
                    return r
        self._memo[key] = res
        return res
    def simp_atom(self, a):
        key = ('sa', a)
        r = self._memo.get(key)
        if r is None:
            r = self._simp_atom(a); self._memo[key] = r
        return r
    def _simp_atom(self, a):
        k = a.k
        if a.isbool:
            v = self.bools.get(a)
            if v is not None: return P(v)
        if k in ('sym', 'v', 'cb'):
            return P(self.sub.get(a, a))
        if k in ('sum', 'ex', 'first', 'best', 'fold'):
            def cb(vs, bounds):
                F = self
                g = []
                for v, n in zip(vs, bounds): g += [P(v), n - 1 - P(v)]
                F = Facts(self.ges + tuple(g), self.sub, self.bools)
                return F.simplify
            r = rebind(a, self.simplify, cb)
            x = single(r)
            if x is not None and x.k == 'sum':
                t = self.trim_sum(x)
                if t is not None: return t
            if x is not None and x.k == 'sum' and x.isint and x is a: return r
            if x is not None and x.k == 'ex' and x.a[0] == 1:
                r2 = self.simp_ex(x)
                if r2 is not None: return r2
            return r
        r = rebuild(a, self.simplify)
        x = single(r)
        if x is None: return r
        if x.isbool and x.k in ('ge', 'eq'):
            v = self.decide(x)
            if v is not None: return P(v)
            return r
        if x.k == 'wrap':
            kind, p = x.a
            if kind in ('u32', 'u64') and self.prove_ge(p): return p
            if kind == 'u8' and self.prove_ge(p) and self.prove_ge(255 - p): return p
        if x.k == 'div':
            n, d = x.a
            if not self.prove_ge(d - 1): return r
            q = {}; rest = {}
            for m, c in n.t.items():
                e = exact_div(Poly({m: c}), d) if len(d.t) == 1 else None
                if e is not None: T._acc(q, e, 1)
                else: rest[m] = c
            if len(d.t) > 1:
                e = poly_divides(n, d)
                if e is not None: q, rest = e
            rest = Poly(rest)
            if q and rest.t and not self.prove_ge(rest):
                # keep one unit in the remainder when that makes it non-negative
                for kk in (1, 2, -1):
                    if self.prove_ge(rest + d.scale(kk)) :
                        rest = rest + d.scale(kk); q = dict((P(Poly(q)) - kk).t); break
                else: return r
                if not q: return r
            elif q and not rest.t: return Poly(q)
            if q: 
                if rest == n: return r
                return Poly(q) + self.simplify(idiv(rest, d))
            if self.prove_ge(n) and self.prove_ge(d - 1 - n): return ZERO
            # (n div a) div b = n div (a*b)
            y = single(n)
            if y is not None and y.k == 'div' and self.prove_ge(y.a[0]) and self.prove_ge(y.a[1] - 1):
                return self.simplify(idiv(y.a[0], y.a[1] * d))
            return r
        if x.k == 'mod':
            n, d = x.a
            if not self.prove_ge(d - 1): return r
            if self.prove_ge(n) and self.prove_ge(d - 1 - n): return n
            rest = {}
            for m, c in n.t.items():
                if len(d.t) == 1 and exact_div(Poly({m: c}), d) is not None: continue
                rest[m] = c
            rest = Poly(rest)
            if rest != n and self.prove_ge(n) and self.prove_ge(rest): return self.simplify(imod(rest, d)) if rest.t else ZERO
            return r
        if x.k == 'fn' and x.a[0] in ('ceil', 'floor'):
            # quotient of integers
            p = x.a[1][0]
            den = {}
            for m, c in p.t.items():
                for at, q in m:
                    if q < 0: den[at] = max(den.get(at, 0), -q)
                    if at.k == 'pinv': return r
            cden = 1
            for c in p.t.values():
                if isinstance(c, Fraction): cden = cden * c.denominator // gcd(cden, c.denominator)
            D = Poly({tuple(sorted(den.items(), key=lambda z: z[0].key)): 1}).scale(cden)
            N = p * D
            if N.isint() and D.isint() and self.prove_ge(D - 1):
                if x.a[0] == 'floor' and self.prove_ge(N): return self.simplify(idiv(N, D))
                if x.a[0] == 'ceil' and self.prove_ge(N + D - 1): return self.simplify(idiv(N + D - 1, D))
            return r
        if x.k == 'fn' and x.a[0] == 'trunc':
            p = x.a[1][0]
            q = self.simplify(fn('floor', p))
            y = single(q)
            if not (y is not None and y.k == 'fn' and y.a[0] == 'floor'):
                if self.prove_ge(p): return q
        return r
    def simp_ex(self, x):
        v = T.fresh('w', 2)
        body = open_binder(x, [v])
        n = x.a[1][0]
        F = Facts(self.ges + (P(v), n - 1 - P(v)), self.sub, self.bools)
        b = F.simplify(body)
        if not b.t: return ZERO
        if b.const() == 1: return ge0(n - 1) if not self.prove_ge(n - 1) else ONE
        # monotone condition: exists v<n with p(v)>=0, p linear in v
        a = single(b)
        neg = False
        if a is None:
            a = single(1 - b); neg = True
        if a is not None and a.k == 'ge':
            p = a.a[0]
            if neg: p = -p - 1
            cf = linear_coef(p, v)
            if cf is not None and v not in cf.fv and p.isint() and cf.t:
                k = cf.const()
                up = k > 0 if k is not None else True if self.prove_ge(cf) else False if self.prove_ge(-cf) else None
                if up is not None: return ge0(n - 1) * ge0(subst(p, {v: (n - 1) if up else ZERO}))
        if x.a[0] != 1 or a is not None: return None
        for g in sorted((g for g in bool_atoms(b) if v in g.fv), key=lambda z: z.key):
            b1, b0 = assign(b, g, 1), assign(b, g, 0)
            if b1.const() == 1: return self.simplify(OR(mkex(v, n, P(g)), mkex(v, n, b0)))
            if b0.const() == 1: return self.simplify(OR(mkex(v, n, 1 - P(g)), mkex(v, n, b1)))
            if g.k != 'ge' or (b1.t and b0.t): continue
            # a conjunct that cuts the range
            q, rest = (g.a[0], b1) if not b0.t else (-g.a[0] - 1, b0)
            c = linear_coef(q, v); c = None if c is None else c.const()
            if c not in (1, -1): continue
            K = q - P(v).scale(c)
            if v in K.fv: continue
            if c == -1:
                if self.prove_ge(K + 1 - n): return self.simplify(mkex(v, n, rest))
                if self.prove_ge(n - 1 - K): return self.simplify(mkex(v, K + 1, rest))
            else:
                if self.prove_ge(K): return self.simplify(mkex(v, n, rest))
                if self.prove_ge(-K): return self.simplify(mkex(v, n + K, subst(rest, {v: P(v) - K})))
        return None

    # ------------------------------------------------------------ equality
    def trim_sum(self, a):
        """a guard K >= v or v >= K that cuts the range of one bound variable becomes the bound"""
        m, bounds, body = a.a[0], a.a[1], a.a[2]
        if len(body.t) != 1: return None
        (mono, co), = body.t.items()
        if not any(x.k == 'ge' for x, _ in mono): return None
        vs = [fresh('j', 2) for _ in range(m)]
        body = open_binder(a, vs)
        if len(body.t) != 1: return None
        (mono, co), = body.t.items()
        for x, _ in mono:
            if x.k != 'ge': continue
            for i, v in enumerate(vs):
                c = linear_coef(x.a[0], v)
                c = None if c is None else c.const()
                if c not in (1, -1): continue
                K = x.a[0] - P(v).scale(c)
                if any(u in K.fv for u in vs): continue
                rest = Poly({tuple(y for y in mono if y[0] is not x): co}); nb = list(bounds)
                if c == -1:
                    if not (self.prove_ge(K + 1) and self.prove_ge(bounds[i] - 1 - K)): continue
                    nb[i] = K + 1
                else:
                    if not (self.prove_ge(-K) and self.prove_ge(bounds[i] + K)): continue
                    nb[i] = bounds[i] + K; rest = subst(rest, {v: P(v) - K})
                r = rest
                for u, q in reversed(list(zip(vs, nb))): r = mksum(u, q, r)
                return self.simplify(r)
        return None
    def equal(self, a, b, depth=7):
        d = self.simplify(P(a) - P(b))
        if self._zero(d, depth): return True
        e = expand_wraps(d)
        return e != d and self._zero(self.simplify(e), depth)
    def _zero(self, d, depth):
        if not d.t: return True
        bs = bool_atoms(d)
        if not bs or depth == 0:
            return self._zero_push(d)
        # indicators common to every monomial just strengthen the context
        for b in sorted(bs, key=lambda z: (z.k not in ('ge', 'eq'), z.k in ('ge', 'eq') and any(a.k not in ('sym', 'v', 'cb') for m in z.a[0].t for a, _ in m), z.key)):
            F1 = self.assume(P(b)); F0 = self.assume(1 - P(b))
            d1 = F1.simplify(assign(d, b, 1)); d0 = F0.simplify(assign(d, b, 0))
            if b.k == 'eq' and d1.t: d1 = F1.simplify(reduce_mod(d1, b.a[0]))
            return F1._zero(d1, depth - 1) and F0._zero(d0, depth - 1)
        return False
    def _zero_push(self, d):
        """last resort: merge the bodies of sums over the same box"""
        groups = {}; rest = ZERO
        for m, c in d.t.items():
            ss = [a for a, q in m if a.k == 'sum' and q == 1]
            if len(ss) == 1:
                a = ss[0]
                others = tuple(x for x in m if x[0] is not a)
                groups.setdefault((a.a[0], a.a[1]), []).append((a, others, c))
            else: rest = rest + Poly({m: c})
        if not groups or rest.t: return False
        for (m, bounds), items in groups.items():
            vs = [fresh('q', 2) for _ in range(m)]
            tot = ZERO
            for a, others, c in items: tot = tot + open_binder(a, vs) * Poly({others: c})
            F = self
            g = []
            for v, n in zip(vs, bounds): g += [P(v), n - 1 - P(v)]
            F = Facts(self.ges + tuple(g), self.sub, self.bools)
            t = F.simplify(tot)
            if not t.t: continue
            if bool_atoms(t):
                if not F._zero(t, 4): return False
            else: return False
        return True

def mono_div(m, d):
    """m / d as a monomial with non-negative powers, or None"""
    if not d: return m
    x = dict(m)
    for a, q in d:
        if q < 0: return None
        if x.get(a, 0) < q: return None
        x[a] -= q
        if x[a] == 0: del x[a]
    return tuple(sorted(x.items(), key=lambda z: z[0].key))

def poly_divides(n, d):
    """n = q*d + rest for multi-term d: only constant multiples"""
    l = lead(d)
    if l in n.t:
        k = Fraction(n.t[l]) / d.t[l]
        if k.denominator == 1:
            rest = n - d.scale(k.numerator)
            if len(rest.t) < len(n.t): return ({(): k.numerator}, rest.t)
    return None

def linear_coef(p, v):
    """coefficient polynomial of v when p is linear in v, else None"""
    co = {}
    for m, c in p.t.items():
        for a, q in m:
            if a is v:
                if q != 1: return None
            elif v in a.fv: return None
        if any(a is v for a, _ in m):
            T._acc(co, tuple(x for x in m if x[0] is not v), c)
    return Poly(co)
