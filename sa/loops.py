"""Loop summarisation: induction variables and trip count by scalar-evolution style recurrences, other state by solving
L' = L + D(k, L) per leaf (accumulations, single-writer stores, last values, flags, extreme searches), early exits by
quantification over the iterations.  Unsolvable leaves become unknowns ('?...') that never take part in a verdict."""
from .terms import *
from . import terms as T
from .values import *
from .facts import Facts, linear_coef

_cnt = [0]

# ---------------------------------------------------------------- helpers
def leaves(v):
    out = []
    def f(p, b, q):
        out.append((q, b, p)); return p
    vmap(v, f)
    return out
def skeleton(v):
    return vmap(v, lambda p, b, q: ZERO)
def replace_leaves(v, table):
    """table: {path: poly}"""
    return vmap(v, lambda p, b, q: table.get(q, p))
def map_apps(p, table):
    """replace app atoms by table[name](args)"""
    names = table.keys()
    cache = {}
    def mp(p):
        if not any((a.syms & names) for m in p.t for a, _ in m): return p
        out = {}
        for m, c in p.t.items():
            if not any(a.syms & names for a, _ in m): T._acc(out, m, c); continue
            r = P(c)
            for a, q in m:
                if a.syms & names:
                    t = cache.get(a)
                    if t is None: t = ma(a); cache[a] = t
                    if q < 0: t = inv(t); q = -q
                    for _ in range(q): r = r * t
                else: r = r * Poly({((a, q),): 1})
            T._acc(out, r, 1)
        return Poly(out)
    def ma(a):
        if a.k == 'app' and a.a[0] in table: return table[a.a[0]]([mp(x) for x in a.a[1]])
        r = rebuild(a, mp)
        if r is None: r = rebind(a, mp, None)
        return r
    return mp(p)
def mentions(p, names): return any(a.syms & names for m in p.t for a, _ in m)
def vmap_apps(v, table):
    return vmap(v, lambda p, b, q: map_apps(p, table))

class Leaf:
    __slots__ = ('root', 'path', 'binders', 'l0', 'name', 'kind', 'd', 'isint', 'isbool', 'nn', 'D', 'sol', 'post', 'inj', 'noind')
    def __init__(self): self.noind = False
    def ph(self, args=None):
        return app(self.name, [P(b) for b in self.binders] if args is None else args, self.isint, self.isbool, self.nn)

def cont_body(I, body, inc):
    """one iteration; continue joins the end"""
    f0 = I.st.facts
    ok, r, exits, live0 = I.scope(body)
    outs = [e for e in exits if e.kind == 'continue']
    from .interp import Exit, St, DeadPath
    if ok: outs.append(Exit('n', I.st.live, I.st.heap, I.st.facts))
    for e in exits:
        if e.kind != 'continue': e.cond = live0 * e.cond; I.exits.append(e)
    if not outs: raise DeadPath()
    heap, facts, val, live = I.merge_exits(outs, f0)
    if len(outs) == 1 and len(exits) > 0 and not any(e.kind == 'continue' for e in exits): facts = f0.assume(live)
    I.st = St(heap, facts, live0 * live)
    for r, v in list(I.st.heap.items()):
        # a failed stream that was left for: what goes on has not failed
        if isinstance(v, VObj) and v.cls == 'stream' and v.f['bad'].const() is None:
            q = I.simp(v.f['bad'])
            if q.const() is None and I.simp(q * live).const() == 0: q = ZERO
            if q != v.f['bad']: I.st.heap[r] = VObj(v.cls, {**v.f, 'bad': q})
    inc()

MAXUNROLL = 40
def conjuncts(e):
    while e is not None and e['k'] in ('paren', 'cast') and e.get('e') and e.get('ck') is None: e = e['e']
    if e is not None and e['k'] == 'bin' and e['op'] == '&&': return conjuncts(e['a']) + conjuncts(e['b'])
    return [e]
def counted(I, node):
    """some conjunct of the loop condition is constant in this state (a fixed-trip loop with a further exit flag)"""
    from .interp import DeadPath
    if node is None or node.get('c') is None or node.get('var'): return False
    cs = conjuncts(node['c'])
    if len(cs) < 2: return False
    for c in cs:
        snap = (I.st.copy(), len(I.exits), len(I.obl), len(I.events))
        try: k = I.simp(I.cond(c)).const()
        except (Unsupported, DeadPath): k = None
        I.st = snap[0]; del I.exits[snap[1]:]; del I.obl[snap[2]:]; del I.events[snap[3]:]
        if k == 1: return True
    return False
def try_unroll(I, cond, body, inc, node=None):
    """returns True when the loop was executed completely with constant conditions"""
    from .interp import DeadPath
    snap = (I.st.copy(), len(I.exits), len(I.obl), len(I.events), I.n)
    nested = getattr(I, '_inunroll', 0)
    n = 0
    def run():
        nonlocal n
        while True:
            c0 = I.simp(cond()); c = c0.const()
            if c is None:
                if n > 8 or not counted(I, node): raise _No()
                I.branch(c0, lambda: None, lambda: I.die('break'))
            elif not c: return
            n += 1
            if n > MAXUNROLL: raise _No()
            cont_body(I, body, inc)
    try:
        I.breakable(run)
        return True
    except _No:
        I.st = snap[0]; del I.exits[snap[1]:]; del I.obl[snap[2]:]; del I.events[snap[3]:]
        return False
class _No(Exception): pass

def run_loop(I, cond, body, inc, node=None):
    from .interp import DeadPath
    if try_unroll(I, cond, body, inc, node): return
    Loop(I, cond, body, inc).run()

class ShallowFail(Unsupported): pass
def same_size(F, q, a, b):
    return bool(q) and q[-1] in ('size', 'dim0', 'dim1', 'dim2') and not F.simplify(b - a).t
class Loop:
    def __init__(self, I, cond, body, inc):
        self.I = I; self.cond = cond; self.body = body; self.inc = inc
        _cnt[0] += 1
        self.id = _cnt[0]
        self.leaves = {}     # (root, path) -> Leaf
        self.havoc_roots = set(); self.seqroots = {}
    def snap(self):
        I = self.I
        return (I.st, len(I.exits), len(I.obl), len(I.events))
    def restore(self, s):
        I = self.I
        I.st = s[0].copy(); del I.exits[s[1]:]; del I.obl[s[2]:]; del I.events[s[3]:]
    # --------------------------------------------------------------
    def run_shallow(self):
        """which leaves change, without their values"""
        I = self.I
        H0 = dict(I.st.heap); st0 = I.st.copy(); nob = len(I.obl), len(I.events)
        c = I.simp(self.cond())
        H0c = dict(I.st.heap)
        I.st.facts = I.st.facts.assume(c)
        ok, _, exits, live0 = I.scope(lambda: cont_body(I, self.body, self.inc))
        hs = [e.heap for e in exits if e.kind == 'break'] + ([I.st.heap] if ok else [])
        I.st = st0
        n = 0
        for H1 in hs:
            for r, v0 in H0.items():
                v1 = H1.get(r)
                cur = I.st.heap[r]
                if v1 is v0 or v1 is None: continue
                if not veq(skeleton(strip_seq(v0)), skeleton(strip_seq(v1))):
                    I.st.heap[r] = VOpq('?havoc', (r,)); continue
                if isinstance(cur, VOpq) and cur.kind == '?havoc': continue
                t = {}
                for (q, b, p0), (_, _, p1) in zip(leaves(strip_seq(v0)), leaves(strip_seq(v1))):
                    if p0 == p1: continue
                    n += 1
                    nn = bool(q and q[-1] in ('size', 'dim0', 'dim1', 'dim2'))
                    t[q] = app('$S%d.%d' % (self.id, n), [P(x) for x in b], p0.isint() and p1.isint(), p0.isbool01() and p1.isbool01() and T._is01(p0) and T._is01(p1) and not nn, nn)
                if t: I.st.heap[r] = replace_leaves(cur, t)
                if isinstance(v0, VObj) and 'seq' in v0.f and not veq(v0.f['seq'], v1.f['seq']):
                    I.st.heap[r] = VObj(cur.cls, {**I.st.heap[r].f, 'seq': VSeq(v0.f['seq'].items + (('shallow', self.id),))})
    def run(self):
        I = self.I
        if getattr(I, 'shallow', 0): return self.run_shallow()
        I.loops_done += 1
        self.base = self.snap()
        self.H0 = dict(I.st.heap); self.F0 = I.st.facts
        self.dims = None
        self.passA()
        for attempt in range(9):
            try:
                if self.passB(): break
            except ReparamSignal as r:
                self.dims = r.dims
        else: raise Unsupported('loop does not stabilise')
        self.finish()
    # -------------------------------------------------------------- pass A
    def passA(self):
        from .interp import DeadPath
        I = self.I
        self.restore(self.base)
        I.probe += 1; I.shallow = getattr(I, 'shallow', 0) + 1
        lv0 = len(I.loopvars)
        def once():
            c = I.simp(self.cond())
            I.st.facts = I.st.facts.assume(c)
            ok, _, exits, live0 = I.scope(lambda: cont_body(I, self.body, self.inc))
            return I.st.heap if ok else None
        sh = I.shallow; frames = len(I.frames)
        try:
            try: H1 = once()
            except ShallowFail:
                # a value inside matters: analyse inner loops fully
                if sh > 1: raise
                del I.frames[frames:]
                self.restore(self.base); I.shallow = 0; H1 = once()
        finally:
            I.probe -= 1; I.shallow = sh - 1
            del I.loopvars[lv0:]
        if H1 is not None: self.diff(H1, first=True)
        self.restore(self.base)
    def diff(self, H1, first=False):
        """register changed leaves; returns True if something new was found"""
        new = False
        for r, v0 in self.H0.items():
            v1 = H1.get(r)
            if v1 is v0 or v1 is None or r in self.havoc_roots: continue
            if isinstance(v0, VObj) and 'seq' in v0.f and isinstance(v1, VObj) and 'seq' in v1.f:
                if r not in self.seqroots:
                    if not veq(v0.f['seq'], v1.f['seq']): self.seqroots[r] = None; new = True
                v0 = VObj(v0.cls, {**v0.f, 'seq': VSeq(())}); v1 = VObj(v1.cls, {**v1.f, 'seq': VSeq(())})
            if not veq(skeleton(v0), skeleton(v1)):
                self.havoc_roots.add(r); new = True; continue
            la = leaves(v0); lb = leaves(v1)
            for (q, b, p0), (q1, b1, p1) in zip(la, lb):
                key = (r, q)
                if p0 == p1 or key in self.leaves or same_size(self.F0, q, p0, p1): continue
                cur = self.curval.get(key) if not first else p0
                if not first and p1 == p0: continue
                L = Leaf(); L.root = r; L.path = q; L.binders = b; L.l0 = p0
                L.name = '$L%d.%d' % (self.id, len(self.leaves)); L.kind = 'ph'; L.d = None; L.sol = None
                L.isint = p0.isint() and p1.isint(); L.nn = (q and q[-1] in ('size', 'dim0', 'dim1', 'dim2')) or (not b and L.isint and self.F0.prove_ge(p0)) or False
                L.isbool = False
                if p0.isbool01() and p1.isbool01() and T._is01(p0) and T._is01(p1): L.isbool = True; L.nn = True
                d = p1 - p0
                if first and not b and L.isint and d.t and bool_atoms(d): d = self.F0.simplify(d)
                if first and not b and d.t and not bool_atoms(d) and not any(x.k in ('app',) and x.a[0].startswith('$') for m in d.t for x, _ in m):
                    L.kind = 'ind'; L.d = d; L.isbool = False
                self.leaves[key] = L; new = True
        return new
    # -------------------------------------------------------------- pass B
    def start_heap(self, K):
        H = dict(self.H0)
        byroot = {}
        self.curval = {}
        for (r, q), L in self.leaves.items():
            v = L.l0 + L.d * K if L.kind == 'ind' else L.ph()
            byroot.setdefault(r, {})[q] = v; self.curval[(r, q)] = v
        for r, t in byroot.items():
            if r not in self.havoc_roots: H[r] = replace_leaves(H[r], t)
        for r in self.seqroots:
            H[r] = VObj(H[r].cls, {**H[r].f, 'seq': VSeq((('mark', self.id),))})
        for r in self.havoc_roots: H[r] = VOpq('?havoc', (r,))
        return H
    def passB(self):
        from .interp import DeadPath, Reparam, Exit
        I = self.I
        self.restore(self.base)
        k = fresh('k', 1)
        if self.dims is not None:
            vs = [fresh('x', 1), fresh('y', 1), fresh('z', 1)]; bs = list(self.dims)
            K = P(vs[0]) + P(vs[1]) * bs[0] + P(vs[2]) * bs[0] * bs[1]
        else:
            vs = [k]; bs = None; K = P(k)
        self.vs = vs; self.K = K
        I.st.heap = self.start_heap(K)
        H_start = dict(I.st.heap)
        # trip count: evaluated with the plain counter
        self.restore(self.base)
        I.st.heap = self.start_heap(P(k))
        I.st.facts = I.st.facts.add_ge(P(k))
        I.probe += 1
        try: c = I.simp(self.cond())
        finally: I.probe -= 1
        N, guard = self.trip(c, k)
        self.N = N
        if self.dims is None:
            dm = self.box_dims(k, N)
            if dm is not None:
                raise_dims = dm
                self.dims = dm
                return False
            bs = [N]
        self.bs = bs
        rotate = False; self.gend = None
        if guard is not None and k not in guard.fv:
            # a state flag that holds at first can be tested at the end of the iteration instead
            gl = [L for L in self.leaves.values() if L.kind == 'ph' and L.name in guard.syms()]
            if all(not L.binders for L in gl) and self.F0.simplify(map_apps(guard, {L.name: (lambda args, L=L: L.l0) for L in gl})).const() == 1: rotate = True
        self.restore(self.base)
        I.st.heap = self.start_heap(K)
        F = self.F0
        for v, n in zip(vs, bs): F = F.upto(v, n)
        I.st.facts = F
        I.loopvars.append((vs, bs))
        flatkey = None
        if self.dims is not None:
            flatkey = I.simp(K)
            I.flat[flatkey] = ((P(vs[0]), P(vs[1]), P(vs[2])), tuple(bs))
        nex = len(I.exits)
        try:
            try:
                def it():
                    c2 = I.simp(self.cond())
                    if guard is not None and not rotate:
                        # a further condition beside the countable one leaves the loop like a break
                        I.branch(c2, lambda: None, lambda: I.die('break'))
                    else: I.st.facts = I.st.facts.assume(c2)
                    cont_body(I, self.body, self.inc)
                    if rotate:
                        end = {L.name: (lambda args, L=L: self.dig(I.st.heap[L.root], L.path) if L.path else I.st.heap[L.root]) for L in gl}
                        ge_ = I.simp(map_apps(guard, end))
                        self.gend = ge_
                        I.branch(ge_, lambda: None, lambda: I.die('break'))
                ok, _, exits, live0 = I.scope(it)
            except Reparam as r:
                if r.k in vs and self.dims is None:
                    self.dims = tuple(r.dims); return False
                raise
            finally:
                I.loopvars.pop()
                if flatkey is not None: I.flat.pop(flatkey, None)
        finally: pass
        H1 = dict(I.st.heap) if ok else None
        self.exits_ = exits; self.live0 = live0; self.normal = ok
        again = False
        if H1 is not None:
            again = self.diff_from(H_start if False else self.start_heap(K), H1)
            for key, L in self.leaves.items():
                if L.root in self.havoc_roots: continue
                v1 = H1.get(L.root)
                p1 = dict((q, p) for q, b, p in leaves(strip_seq(v1))).get(L.path)
                if p1 is None: self.havoc_roots.add(L.root); again = True; continue
                if self.gend is not None and not L.binders: p1 = known_true(p1, self.gend)
                if L.kind == 'ind':
                    want = L.l0 + L.d * (K + 1)
                    Fk = F
                    if not (p1 == want or Facts_equal(Fk, p1, want)):
                        L.kind = 'ph'; again = True; L.noind = True
                        L.isint = L.l0.isint() and p1.isint(); L.isbool = False
                else:
                    if L.isbool and not (p1.isbool01() and T._is01(p1)): L.isbool = False; again = True
                    if L.nn and not L.binders and not (L.path and L.path[-1] in ('size', 'dim0', 'dim1', 'dim2')) and not (p1.isint() and F.prove_ge(p1)): L.nn = False; L.name += 'n'; again = True
                    if L.isint and not p1.isint(): L.isint = False; L.isbool = False; again = True
                    if not L.binders and not L.noind and not L.isbool:
                        d = F.simplify(p1 - L.ph())
                        if not d.t: L.kind = 'ind'; L.d = ZERO; again = True
                        if d.t and not bool_atoms(d) and not (d.fv & set(vs)) and not any(x.startswith('$') or x.startswith('?') for x in d.syms()):
                            L.kind = 'ind'; L.d = d; again = True
                L.post = p1
            self.seqnew = {}
            for r in self.seqroots:
                if r in self.havoc_roots: continue
                it = H1[r].f['seq'].items
                if not it or it[0] != ('mark', self.id): self.havoc_roots.add(r); again = True; continue
                self.seqnew[r] = it[1:]
        if again:
            return False
        self.F = F; self.H1 = H1
        return True
    def diff_from(self, Hs, H1):
        saved = self.H0
        self.H0_real = saved
        new = False
        for r, v0 in saved.items():
            v1 = H1.get(r)
            if v1 is None or r in self.havoc_roots: continue
            vs = Hs[r]
            if v1 is vs: continue
            a, b = strip_seq(vs), strip_seq(v1)
            if not veq(skeleton(a), skeleton(b)):
                self.havoc_roots.add(r); new = True; continue
            if isinstance(vs, VObj) and 'seq' in vs.f and r not in self.seqroots and not veq(vs.f['seq'], v1.f['seq']):
                self.seqroots[r] = None; new = True
            la = leaves(a); lb = leaves(b)
            l0 = leaves(strip_seq(v0))
            for (q, bb, p0), (q1, b1, p1), (_, _, pz) in zip(la, lb, l0):
                key = (r, q)
                if p0 == p1 or key in self.leaves or same_size(self.F0, q, p0, p1): continue
                L = Leaf(); L.root = r; L.path = q; L.binders = bb; L.l0 = pz
                L.name = '$L%d.%d' % (self.id, len(self.leaves)); L.kind = 'ph'; L.d = None; L.sol = None
                L.isint = pz.isint() and p1.isint(); L.nn = bool((q and q[-1] in ('size', 'dim0', 'dim1', 'dim2')) or (not bb and L.isint and self.F0.prove_ge(pz)))
                L.isbool = bool(pz.isbool01() and p1.isbool01() and T._is01(pz) and T._is01(p1)) and not (q and q[-1] in ('size', 'dim0', 'dim1', 'dim2'))
                self.leaves[key] = L; new = True
        return new
    # -------------------------------------------------------------- trip count
    def trip(self, c, k):
        I = self.I; F = I.st.facts
        if c.const() is not None:
            if c.const() == 0: return ZERO, None
            raise Unsupported('endless loop condition')
        cands = []
        for a in bool_atoms(c):
            if k not in a.fv: continue
            if a.k not in ('ge', 'eq'): continue
            for val in (1, 0):
                # c implies a == val
                if assign(c, a, 1 - val).t: continue
                n = self.bound(a, val, k, F)
                if n is not None: cands.append((a, val, n))
        if not cands:
            for a in sorted(bool_atoms(c), key=lambda z: z.key):
                if k in a.fv or any(y.startswith('$L') for y in a.syms): continue
                # an invariant condition selects the bound
                r = []
                for val in (1, 0):
                    I.st.facts = F.assume(P(a) if val else 1 - P(a))
                    try: r.append(self.trip(I.st.facts.simplify(assign(c, a, val)), k))
                    finally: I.st.facts = F
                if r[0][1] is not None or r[1][1] is not None: break
                return F.simplify(ite(P(a), r[0][0], r[1][0])), None
            for a in sorted(bool_atoms(c), key=lambda z: z.key):
                if k not in a.fv or a.k != 'ge': continue
                for val in (1, 0):
                    # either of two prefixes
                    if assign(c, a, val).const() != 1: continue
                    n = self.bound(a, val, k, F)
                    if n is None: continue
                    n2, g2 = self.trip(assign(c, a, 1 - val), k)
                    if g2 is None: return F.simplify(tmax(n, n2)), None
            raise Unsupported('trip count of %s' % show(c)[:200])
        cands.sort(key=lambda z: (z[0].k != 'ge', z[0].key))
        a, val, n = cands[0]
        rest = assign(c, a, val)
        if rest.const() == 1: return n, None
        F2 = F.add_ge(P(k), n - 1 - P(k))
        rest = F2.simplify(rest)
        if rest.const() == 1: return n, None
        return n, rest
    def bound(self, a, val, k, F):
        p = a.a[0]
        cf = linear_coef(p, k)
        if cf is None or not cf.t: return None
        base = subst(p, {k: ZERO})
        if a.k == 'ge':
            if not val: p = -p - 1; base = -base - 1; cf = -cf      # p >= 0 must hold
            if not p.isint(): return None
            s = -cf
            if not F.prove_ge(s - 1): return None
            if s.const() == 1: return F.simplify(npos2(base + 1, F))
            return F.simplify(ite(ge0(base), idiv(base, s) + 1, ZERO))
        if val: return None
        # p != 0
        if F.prove_ge(cf - 1): s = cf; b = -base
        elif F.prove_ge(-cf - 1): s = -cf; b = base
        else: return None
        if s.const() == 1:
            if F.prove_ge(b): return F.simplify(b)
            if self.is_volume(b, F): return F.simplify(b)
            return F.simplify(b) if self.assume_nn(b) else None
        e = exact_div(b, s)
        return e
    def is_volume(self, b, F):
        """b is the element count of a matrix walked by an iterator of this loop, and its sizes are not negative"""
        I = self.I
        for L in self.leaves.values():
            if L.kind == 'ind' and L.path and L.path[-1] == 'pos':
                it = self.dig(self.H0[L.root], L.path[:-1])
                if isinstance(it, VMIt):
                    try: d = [F.simplify(x) for x in I.mat_dims(it.lv)]
                    except Unsupported: continue
                    if F.simplify(d[0] * d[1] * d[2] - b).t: continue
                    if all(F.prove_ge(x) for x in d): return True
        return False
    def assume_nn(self, b):
        return all(c > 0 and all(x.nn for x, q in m) for m, c in b.t.items())
    def box_dims(self, k, N):
        """shape of the matrix an iterator walks over with this loop's counter"""
        I = self.I
        for L in self.leaves.values():
            if L.kind == 'ind' and L.path and L.path[-1] == 'pos' and L.d.const() == 1 and not L.l0.t:
                it = I.getp_path(self.H0[L.root], L.path[:-1]) if hasattr(I, 'getp_path') else self.dig(self.H0[L.root], L.path[:-1])
                if isinstance(it, VMIt):
                    try: d = I.mat_dims(it.lv)
                    except Unsupported: continue
                    d = tuple(I.simp(x) for x in d)
                    if I.simp(d[0] * d[1] * d[2] - N).t: continue
                    if sum(x.const() == 1 for x in d) >= 2: continue
                    return d
        return None
    def dig(self, v, path):
        for s in path:
            if isinstance(v, VObj): v = v.f[s]
            elif isinstance(v, VList): v = v.a[s]
            else: return None
        return v
    # -------------------------------------------------------------- solving
    def prefix_tbl(self, kexpr):
        """name -> closed form at the start of iteration kexpr (single counter)"""
        return {L.name: (lambda args, L=L: self.at(L, kexpr, args)) for L in self.leaves.values() if L.kind == 'ph'}
    def at(self, L, kexpr, args):
        if L.sol is None: return self.unknown(L, args, kexpr)
        r = L.sol(kexpr)
        if r is None: return self.unknown(L, args, kexpr)
        return subst(r, dict(zip(L.binders, args))) if L.binders else r
    def unknown(self, L, args, kexpr=None):
        return app('?' + L.name, list(args) + ([kexpr] if kexpr is not None else []), L.isint, L.isbool, L.nn)
    def sum(self, D, upto=None):
        if len(self.vs) == 1: return mksum(self.vs[0], self.N if upto is None else upto, D)
        if upto is not None: return None
        r = D
        for v, n in zip(self.vs, self.bs): r = mksum(v, n, r)
        return r
    def ex(self, c, upto=None):
        if len(self.vs) == 1: return mkex(self.vs[0], self.N if upto is None else upto, c)
        if upto is not None: return None
        return ex_box(list(reversed(self.vs)), list(reversed(self.bs)), c)
    def injective(self, D, F):
        """at most one iteration has D != 0 (for fixed binders)"""
        vs = list(self.vs)
        # joint solving: every monomial must pin all counters to counter-free values
        if not D.t: return True
        atoms = [a for a in bool_atoms(D) if a.k == 'eq' and not assign(D, a, 0).t]
        left = set(vs)
        sub = {}
        changed = True
        while changed and left:
            changed = False
            for a in atoms:
                p = subst(a.a[0], sub)
                for v in list(left):
                    s = solve_eq(p, {v})
                    if s and not (s[1].fv & (left - {v})) :
                        sub[v] = s[1]; left.discard(v); changed = True; break
                if changed: break
        if left and len(vs) == 1 and len(left) == 1:
            # c*k + ... == 0 with non-unit coefficient is injective too
            v = vs[0]
            for a in atoms:
                cf = linear_coef(a.a[0], v)
                if cf is not None and cf.t and (cf.const() or F.prove_ge(cf - 1) or F.prove_ge(-cf - 1)): return True
        if left:
            # scaled coordinates: s*x == ... with s >= 1
            for v in list(left):
                for a in atoms:
                    cf = linear_coef(a.a[0], v)
                    if cf is not None and cf.t and not (cf.fv & set(vs)):
                        rest = a.a[0] - cf * P(v)
                        if not (rest.fv & (left - {v})) and v not in rest.fv and (cf.const() or F.prove_ge(cf - 1) or F.prove_ge(-cf - 1)):
                            left.discard(v); break
            # the flat position of a box
            if len(left) == 3 and len(vs) == 3:
                for a in atoms:
                    p = a.a[0]
                    for s in (1, -1):
                        q = p.scale(s) - self.K
                        if not (q.fv & set(vs)): return True
        if not left: return True
        if len(vs) == 1:
            v = vs[0]
            lits = []
            for a in bool_atoms(D):
                if a.k not in ('ge', 'eq') or not a.a[0].isint() or v not in a.fv: continue
                if forced(F, D, a, 1): lits += [a.a[0]] if a.k == 'ge' else [a.a[0], -a.a[0]]
                elif a.k == 'ge' and forced(F, D, a, 0): lits.append(-a.a[0] - 1)
            if lits and len(lits) <= 8:
                w = fresh('k2', 1)
                G = Facts(F.ges + tuple(lits) + tuple(subst(p, {v: P(w)}) for p in lits) + (P(w) - P(v) - 1, self.N - 1 - P(w)), F.sub, {})
                if G.prove_ge(P(-1)): return True
        return False
    def mono_deltas(self, m, binders):
        """binder -> expression forced by the equality indicators of a monomial"""
        sub = {}
        for a, q in m:
            if a.k != 'eq': continue
            p = subst(a.a[0], sub) if sub else a.a[0]
            for b in binders:
                if b in sub: continue
                r = solve_eq(p, {b})
                if r:
                    sub = {x: subst(e, {b: r[1]}) for x, e in sub.items()}; sub[b] = r[1]; break
        return sub
    def own_form(self, L, D, zz):
        ok = [True]
        myargs = [P(b) for b in L.binders]
        out = ZERO
        for m, c in D.t.items():
            if not any(L.name in a.syms for a, _ in m): out = out + Poly({m: c}); continue
            sub = self.mono_deltas(m, L.binders)
            mine = [subst(x, sub) for x in myargs] if sub else myargs
            def rep(args, sub=sub, mine=mine):
                if args != myargs and [subst(x, sub) for x in args] != mine and any(self.F.simplify(subst(x, sub) - y).t for x, y in zip(args, mine)): ok[0] = False
                return P(zz)
            out = out + map_apps(Poly({m: c}), {L.name: rep})
        return out if ok[0] else None
    def fresh_cells(self, todo, F):
        """reads of the very cell this iteration writes see the value from before the loop when no two iterations write one cell"""
        tbls = {}
        for L in todo:
            if not L.binders or not L.D.t: continue
            forced = [a for a in bool_atoms(L.D) if a.k == 'eq' and any(b in a.fv for b in L.binders) and not assign(L.D, a, 0).t]
            if not forced: continue
            prod = ONE
            for a in forced: prod = prod * P(a)
            pins = self.mono_deltas([(a, 1) for a in forced], L.binders)
            pins = {b: e for b, e in pins.items() if not (e.fv & set(L.binders))}
            if not any(e.fv & set(self.vs) for e in pins.values()) or not self.injective(prod, F): continue
            tbls[L.name] = (L, [(i, pins[b]) for i, b in enumerate(L.binders) if b in pins])
        if not tbls: return
        for M in todo:
            if not (M.D.syms() & tbls.keys()): continue
            out = ZERO
            for m, c in M.D.t.items():
                if not any(a.syms & tbls.keys() for a, _ in m): out = out + Poly({m: c}); continue
                sub = self.mono_deltas(m, M.binders)
                def rp(args, L, pins, sub=sub):
                    for i, e in pins:
                        if F.simplify(subst(args[i], sub) - subst(e, sub)).t: return L.ph(args)
                    return subst(L.l0, dict(zip(L.binders, args)))
                out = out + map_apps(Poly({m: c}), {n: (lambda args, L=L, pins=pins: rp(args, L, pins)) for n, (L, pins) in tbls.items()})
            M.D = F.simplify(out)
    def window_delta(self, D, F):
        """0 <= b - C*k <= C-1 pins the counter k to b div C"""
        for v in self.vs:
            for _ in range(2):
                ats = [a for a in bool_atoms(D) if a.k == 'ge' and v in a.fv and a.a[0].isint()]
                lits = [(a, a.a[0], 1) for a in ats if forced(F, D, a, 1)] + [(a, -a.a[0] - 1, 0) for a in ats if forced(F, D, a, 0)]
                hit = None
                for a, p, va in lits:
                    cf = linear_coef(p, v)
                    if cf is None or not cf.t or (cf.fv & set(self.vs)): continue
                    C = -cf
                    if not F.prove_ge(C - 1): continue
                    for b, q, vb in lits:
                        if b is not a and not (C - 1 - p - q).t and F.prove_ge(subst(p, {v: ZERO})): hit = (a, va, b, vb, subst(p, {v: ZERO}), C)
                    if hit: break
                if hit is None: break
                a, va, b, vb, base, C = hit
                D = assign(assign(D, a, va), b, vb) * eq0(P(v) - idiv(base, C))
                D = F.simplify(D)
        return D
    def solve(self):
        F = self.F
        todo = [L for L in self.leaves.values() if L.kind == 'ph' and L.root not in self.havoc_roots]
        phn = {L.name for L in todo}
        for L in todo:
            L.D = self.window_delta(F.simplify(L.post - L.ph()), F)
        self.fresh_cells(todo, F)
        progress = True
        while progress and todo:
            progress = False
            for L in list(todo):
                D = L.D
                others = (D.syms() & phn) - {L.name}
                solved = {M.name: M for M in self.leaves.values() if M.sol is not None}
                if others - set(solved): continue
                if others:
                    if len(self.vs) > 1:
                        ok = True
                        for n in others:
                            if solved[n].sol(self.K) is None: ok = False
                        if not ok: continue
                    D = map_apps(D, {n: (lambda args, M=solved[n]: self.at(M, self.K if len(self.vs) == 1 else self.K, args)) for n in others})
                    D = self.simp_b(L, F, D)
                if self.solve_leaf(L, D, F): todo.remove(L); progress = True
            if not progress and todo: progress = self.solve_extreme(todo, F)
            if not progress and todo: progress = self.solve_fold(todo, F, phn)
    def solve_fold(self, todo, F, phn):
        """recurrences without a closed form stay folds: exact, but only comparable syntactically or by interpretation"""
        def prep(L):
            D = L.D
            solved = {M.name: M for M in self.leaves.values() if M.sol is not None}
            tn = {M.name for M in todo}
            others = (D.syms() & phn) - tn
            for n in others:
                if n not in solved or solved[n].sol(self.K) is None: return None
            if others: D = F.simplify(map_apps(D, {n: (lambda args, M=solved[n]: self.at(M, self.K, args)) for n in others}))
            return D
        def zof(L): return mk('sym', ('$own%s' % L.name,), L.isint, L.isbool)
        def fold(k, leaves, inits, trans, which):
            if k is None: return mkfold(self.vs, self.bs, leaves, inits, trans, which)
            if len(self.vs) > 1: return None
            return mkfold(self.vs, [k], leaves, inits, trans, which)
        # one cell at a time
        for L in todo:
            D = prep(L)
            if D is None or any(M.name in D.syms() for M in todo if M is not L): continue
            zz = zof(L); Dz = self.own_form(L, D, zz)
            if Dz is None: continue
            L.sol = lambda k=None, zz=zz, L=L, Dz=Dz: fold(k, [zz], [L.l0], [P(zz) + Dz], 0)
            todo.remove(L); return True
        # scalars that depend on each other
        grp = [L for L in todo if not L.binders]
        Ds = {L: prep(L) for L in grp}
        grp = [L for L in grp if Ds[L] is not None]
        while True:
            names = {L.name for L in grp}
            ok = [L for L in grp if not ((Ds[L].syms() & phn) - names)]
            if len(ok) == len(grp): break
            grp = ok
        if not grp: return False
        tbl = {L.name: (lambda args, z=zof(L): P(z)) for L in grp}
        zs = [zof(L) for L in grp]; tr = [P(z) + map_apps(Ds[L], tbl) for z, L in zip(zs, grp)]; ini = [L.l0 for L in grp]
        for i, L in enumerate(grp):
            L.sol = lambda k=None, i=i: fold(k, zs, ini, tr, i)
            todo.remove(L)
        return True
    def simp_b(self, L, F, p): 
        return F.simplify(p)
    def solve_leaf(self, L, D, F):
        own = L.name in D.syms()
        l0 = L.l0
        if not own:
            L.sol = lambda k=None, D=D: self.combine(l0, D, k)
            return True
        z = fresh('own', 0, L.isint)
        zz = mk('sym', ('$own%s' % L.name,), L.isint, L.isbool)
        Dz = self.own_form(L, D, zz)
        if Dz is None: return False
        # last value: D = beta - L
        beta = Dz + P(zz)
        if zz not in beta.fv:
            def last(k=None, beta=beta):
                if len(self.vs) > 1:
                    if k is not None: return None
                    s = {v: n - 1 for v, n in zip(self.vs, self.bs)}
                    return ite(ge0(self.N_total() - 1), subst(beta, s), l0)
                n = self.N if k is None else k
                return ite(ge0(n - 1), subst(beta, {self.vs[0]: n - 1}), l0)
            L.sol = last; return True
        if self.injective(Dz, F):
            D0 = subst(Dz, {zz: l0})
            L.sol = lambda k=None, D=D0: self.combine(l0, D, k)
            return True
        # flags: D = c*(v - L), v invariant
        cpoly = None
        if L.isbool:
            d1 = assign(Dz, zz, 1); d0 = assign(Dz, zz, 0)   # change when L is 1 / 0
            if not d0.t and T_is01(-d1): c, v = -d1, ZERO
            elif not d1.t and T_is01(d0): c, v = d0, ONE
            else:
                # L' = beta1 if L else beta0
                c = None
            if c is not None:
                L.sol = lambda k=None, c=c, v=v: self.flag(l0, c, v, k)
                return True
        cf = lincoef_atom(Dz, zz)
        if cf is not None:
            c = -cf; b = Dz + c * P(zz)
            if c.isbool01() and T_is01(c):
                v = None
                if not b.t: v = ZERO
                else:
                    q = b
                    for a in bool_atoms(c):
                        if not assign(c, a, 0).t: q = assign(q, a, 1)
                    if not (q.fv & set(self.vs)) and c * q == b: v = q
                if v is not None:
                    L.sol = lambda k=None, c=c, v=v: self.flag(l0, c, v, k)
                    return True
                # the last iteration that stores wins
                q = b
                for a in bool_atoms(c):
                    if not assign(c, a, 0).t: q = assign(q, a, 1)
                    elif not assign(c, a, 1).t: q = assign(q, a, 0)
                if F.equal(c * q, b):
                    def lastw(k=None, c=c, q=q):
                        if k is not None:
                            if len(self.vs) > 1: return None
                            ns = [k]
                        else: ns = list(self.bs)
                        if not (c.fv & set(self.vs)):
                            if len(ns) == 1: any_ = ge0(ns[0] - 1)
                            else: any_ = ge0(self.N_total() - 1)
                            s = {v: m - 1 for v, m in zip(self.vs, ns)}
                            return l0 + c * any_ * (subst(q, s) - l0)
                        ws = [fresh('w', 1) for _ in ns]
                        rc = subst(c, {v: m - 1 - P(w) for v, w, m in zip(self.vs, ws, ns)})
                        hit = {v: m - 1 - first(ws, ns, rc, i) for i, (v, m) in enumerate(zip(self.vs, ns))}
                        any_ = ex_box(list(reversed(ws)), list(reversed(ns)), rc)
                        return l0 + any_ * (subst(q, hit) - l0)
                    L.sol = lastw
                    return True
        return False
    def N_total(self):
        r = ONE
        for b in self.bs: r = r * b
        return r
    def combine(self, l0, D, k):
        if k is None:
            s = self.sum(D)
            return l0 + s
        if len(self.vs) > 1:
            if not D.t: return l0
            # prefix in column-major order
            ws = [fresh('p', 1) for _ in self.vs]
            Kp = None
            if k == self.K:
                x, y, z = [P(v) for v in self.vs]; a, b, c = [P(w) for w in ws]
                before = OR(lt(c, z), AND(eq(c, z), OR(lt(b, y), AND(eq(b, y), lt(a, x)))))
                Dp = subst(D, dict(zip(self.vs, [P(w) for w in ws]))) * before
                r = Dp
                for w, n in zip(ws, self.bs): r = mksum(w, n, r)
                return l0 + r
            return None
        v = self.vs[0]
        w = fresh('p', 1)
        return l0 + mksum(w, k, subst(D, {v: P(w)}))
    def flag(self, l0, c, v, k):
        if k is None: e = self.ex(c)
        else:
            if len(self.vs) > 1: return None
            w = fresh('p', 1); e = mkex(w, k, subst(c, {self.vs[0]: P(w)}))
        return l0 + e * (v - l0)
    # extreme value searches
    def solve_extreme(self, todo, F):
        done = False
        for L in list(todo):
            if L.binders: continue
            zz = mk('sym', ('$own%s' % L.name,), L.isint, False)
            Dz = map_apps(L.D, {L.name: lambda args: P(zz)})
            if any(M.name in Dz.syms() for M in todo): continue
            bs = [a for a in bool_atoms(Dz) if zz in a.fv]
            if len(bs) != 1 and not (len(bs) == 2): continue
            r = self.match_extreme(Dz, zz, bs)
            if r is None: continue
            kind, strict, f, c = r
            l0 = L.l0
            vs, ns = list(self.vs), list(self.bs)
            ext = self.extend(vs, ns, f, l0)
            if ext is not None:
                vs2, ns2, f2, shift = ext
                val = best(vs2, ns2, f2, kind, 'val'); any_ = ONE
                def pos(comp, vs2=vs2, ns2=ns2, f2=f2, strict=strict, kind=kind): return best(vs2, ns2, f2, kind if strict else kind + 'last', comp)
            else:
                shift = None
                val0 = best(vs, ns, f, kind, 'val')
                any_ = ge0(self.N_total() - 1) * (gt(val0, l0) if kind == 'max' else lt(val0, l0)) if strict else ge0(self.N_total() - 1) * (ge(val0, l0) if kind == 'max' else le(val0, l0))
                val = ite(any_, val0, l0)
                def pos(comp, vs=vs, ns=ns, f=f, strict=strict, kind=kind): return best(vs, ns, f, kind if strict else kind + 'last', comp)
            L.sol = lambda k=None, val=val: val if k is None else None
            todo.remove(L); done = True
            # companions: D_i = c*(g - Li) with the same condition
            for M in list(todo):
                if M.binders: continue
                z2 = mk('sym', ('$own%s' % M.name,), M.isint, False)
                Dm = map_apps(M.D, {M.name: lambda args: P(z2), L.name: lambda args: P(zz)})
                # D_m == c*(g - z2)
                cfm = lincoef_atom(Dm, z2)
                if cfm is None or not (cfm + c) == ZERO: continue
                rest = Dm + c * P(z2)
                g = rest
                q = rest
                for a in bool_atoms(c): q = self.force(q, c)
                if zz in q.fv or not (c * q == rest): continue
                if shift is None:
                    p = {v: pos(i) for i, v in enumerate(vs)}
                    fin = ite(any_, subst(q, p), M.l0)
                else:
                    # counter is (position - 1); position 0 stands for the initial value
                    p0 = pos(0)
                    fin = ite(eq0(p0), M.l0, subst(q, {vs[0]: p0 - 1}))
                    if subst(q, {vs[0]: P(-1)}) == M.l0: fin = subst(q, {vs[0]: p0 - 1})
                M.sol = lambda k=None, fin=fin: fin if k is None else None
                todo.remove(M)
            break
        return done
    def force(self, q, c):
        for a in bool_atoms(c):
            if not assign(c, a, 0).t: q = assign(q, a, 1)
            elif not assign(c, a, 1).t: q = assign(q, a, 0)
        return q
    def extend(self, vs, ns, f, l0):
        if len(vs) != 1: return None
        if subst(f, {vs[0]: P(-1)}) == l0:
            v2 = fresh('k', 1)
            return [v2], [ns[0] + 1], subst(f, {vs[0]: P(v2) - 1}), 1
        return None
    def match_extreme(self, Dz, zz, bs):
        cf = lincoef_atom_outside(Dz, zz, bs)
        if cf is None: return None
        c = -cf
        if not c.isbool01() or not T_is01(c): return None
        rest = Dz + c * P(zz)
        # candidate f: from the comparison atom  p = +-(f - z) + 0
        for a in bs:
            if a.k != 'ge': continue
            p = a.a[0]
            cz = linear_coef(p, zz)
            if cz is None or cz.const() not in (1, -1): continue
            for off in (0, 1, -1):
                f = (P(zz) - p.scale(cz.const())) + off
                if zz in f.fv: continue
                for kind, strict, cc in (('max', True, gt(f, zz)), ('max', False, ge(f, zz)), ('min', True, lt(f, zz)), ('min', False, le(f, zz))):
                    if cc == c and c * f == rest: return kind, strict, f, c
        return None
    # -------------------------------------------------------------- finish
    def finish(self):
        from .interp import DeadPath, Exit, St
        I = self.I
        self.restore_keep_obl()
        if self.normal: self.solve()
        # obligations met inside the iteration, now that its state is known
        names = {L.name for L in self.leaves.values() if L.kind == 'ph'}
        if names:
            tbo = {L.name: (lambda args, L=L: self.at(L, self.K, args)) for L in self.leaves.values() if L.kind == 'ph'}
            for o in I.obl[self.base[2]:]:
                if o['ok'] or not (mentions(o['cond'], names) or mentions(o['live'], names)): continue
                try:
                    o['cond'] = map_apps(o['cond'], tbo); o['live'] = map_apps(o['live'], tbo)
                    o['facts'] = Facts(tuple(map_apps(g, tbo) for g in o['facts'].ges), {}, {})
                    o['cond'] = o['facts'].simplify(o['cond'])
                    if o['cond'].const() == 1: o['ok'] = True
                except Unsupported: pass
        # early exits
        exits = self.exits_
        qtot = ZERO
        single_k = len(self.vs) == 1
        if exits:
            tblk = {L.name: (lambda args, L=L: self.at(L, self.K, args)) for L in self.leaves.values() if L.kind == 'ph'}
            conds = []
            for e in exits:
                q = map_apps(e.cond, tblk)
                q = self.F.simplify(q)
                conds.append(q); qtot = qtot + q
            qtot = self.F.simplify(qtot)
            E = self.ex(qtot)
            E = self.F0.simplify(E)
            hit = {v: first(list(self.vs), list(self.bs), qtot, i) for i, v in enumerate(self.vs)}
            Kh = subst(self.K, hit)
            brk = []
            for e, q in zip(exits, conds):
                if q == qtot: ci = E
                else: ci = E * subst(q, hit)
                ci = self.F0.simplify(ci)
                if ci.const() == 0: continue
                tbl = {L.name: (lambda args, L=L: self.exit_at(L, Kh, args)) for L in self.leaves.values() if L.kind == 'ph'}
                # values computed inside iteration k: placeholders at k, then k := first hit
                tb2 = {L.name: (lambda args, L=L: self.at(L, self.K, args)) for L in self.leaves.values() if L.kind == 'ph'}
                def conv(p, q=q):
                    return subst(known_true(map_apps(p, tb2), q), hit)
                heap = {}
                for r, v in e.heap.items():
                    if r in self.havoc_roots: heap[r] = v; continue
                    if r in self.H0 and v is self.H0[r]: heap[r] = v; continue
                    if r in self.seqroots:
                        new = v.f['seq'].items[1:]
                        base = self.H0[r].f['seq'].items
                        rep = (('rep', tuple(self.vs), (Kh,) if single_k else tuple(self.bs), tuple(self.seqnew.get(r, ()))),) if self.normal else ()
                        v = VObj(v.cls, {**v.f, 'seq': VSeq(base + rep + new)})
                    heap[r] = self.tmap(v, conv)
                val = e.val
                if isinstance(val, (Poly, Val, LV)): val = vmap(val, lambda p, b, q_: conv(p))
                elif isinstance(val, tuple) and len(val) == 2 and isinstance(val[1], (Poly, Val)):
                    try: val = (val[0], vmap(val[1], lambda p, b, q_: conv(p)))
                    except Unsupported: val = (val[0], None)
                fx = self.F0
                if e.kind == 'break': brk.append((ci, heap))
                else:
                    I.exits.append(Exit(e.kind, I.st.live * ci, heap, fx, val, e.where))
        else:
            E = ZERO; brk = []
        # normal completion
        heap = dict(self.H0)
        if self.normal:
            byroot = {}
            for (r, q), L in self.leaves.items():
                if L.kind == 'ind':
                    v = L.l0 + L.d * self.N
                else:
                    v = L.sol() if L.sol is not None else self.unknown(L, [P(b) for b in L.binders])
                    if v is None: v = self.unknown(L, [P(b) for b in L.binders])
                v = self.F0.simplify(v) if not L.binders else v
                byroot.setdefault(r, {})[q] = v
            for r, t in byroot.items():
                if r not in self.havoc_roots: heap[r] = I.tidy(replace_leaves(heap[r], t))
            for r in self.seqroots:
                if r in self.havoc_roots: continue
                base = self.H0[r].f['seq'].items
                its = tuple(self.seqnew[r])
                its = VSeq(its)
                its = vmap_apps(its, {L.name: (lambda args, L=L: self.at(L, self.K, args)) for L in self.leaves.values() if L.kind == 'ph'}).items
                if its: heap[r] = VObj(heap[r].cls, {**heap[r].f, 'seq': VSeq(base + (('rep', tuple(self.vs), tuple(self.bs), its),))})
            for r in self.havoc_roots: heap[r] = VOpq('?havoc', (r,))
        else:
            # every iteration leaves the loop: normal completion means no iteration
            pass
        endc = 1 - E
        if not self.normal:
            n1 = ge0(self.N - 1)
            endc = self.F0.simplify(1 - n1) if E.const() != 1 else 1 - E
        endc = self.F0.simplify(endc)
        live = I.st.live
        facts = self.F0.assume(endc) if endc.const() is None else self.F0
        if not brk:
            if endc.const() == 0: raise DeadPath()
            I.st = St(heap, facts, live * endc); return
        outs = list(brk)
        if endc.const() != 0: outs.append((endc, heap))
        acc = outs[-1][1]; lv = outs[-1][0]
        for ci, h in reversed(outs[:-1]):
            m = dict(acc)
            for r, v in h.items():
                if r in m:
                    if m[r] is not v: m[r] = vite(ci, v, m[r])
                elif r in self.H0: m[r] = v
            acc = m; lv = lv + ci
        lv = self.F0.simplify(lv)
        for r in list(acc):
            if r in self.H0 and acc[r] is not self.H0[r]: acc[r] = I.tidy(acc[r])
        I.st = St(acc, self.F0 if len(outs) > 1 else self.F0.assume(outs[0][0]), live * lv)
    def exit_at(self, L, Kh, args): return self.at(L, Kh, args)
    def tmap(self, v, conv):
        try: return vmap(v, lambda p, b, q: conv(p))
        except Unsupported: return VOpq('?havoc', ())
    def restore_keep_obl(self):
        I = self.I
        s = self.base
        I.st = s[0].copy(); del I.exits[s[1]:]

def known_true(p, q):
    """p where the condition q is known to hold"""
    if p == q: return ONE
    if p.const() is not None: return p
    if not (p + q - 1).t: return ZERO
    if q.t and len(q.t) <= 6:
        for a in bool_atoms(q):
            if a not in bool_atoms(p): continue
            if not assign(q, a, 0).t: p = assign(p, a, 1)
            elif not assign(q, a, 1).t: p = assign(p, a, 0)
    return p

def forced(F, D, a, val):
    """D vanishes unless the indicator a has the value val"""
    d = assign(D, a, 1 - val)
    if not d.t: return True
    if not a.a[0].isint() or not any(b.k == 'ge' for b in bool_atoms(d)): return False
    return not F.assume(1 - P(a) if val else P(a)).simplify(d).t

class ReparamSignal(Exception): pass

def strip_seq(v):
    if isinstance(v, VObj) and 'seq' in v.f: return VObj(v.cls, {**v.f, 'seq': VSeq(())})
    return v
def T_is01(c):
    return c.isbool01() and T._is01(c)
def npos2(n, F):
    if F.prove_ge(n): return n
    return T.npos(n)
def Facts_equal(F, a, b):
    d = F.simplify(a - b)
    return not d.t
def lincoef_atom(p, a):
    """coefficient of atom a when p is linear in it and it occurs nowhere else"""
    co = {}
    for m, c in p.t.items():
        hit = False
        for x, q in m:
            if x is a:
                if q != 1: return None
                hit = True
            elif a in x.fv: return None
        if hit: T._acc(co, tuple(x for x in m if x[0] is not a), c)
    return Poly(co)
def lincoef_atom_outside(p, a, allowed):
    """like lincoef_atom but a may occur inside the given boolean atoms"""
    co = {}
    for m, c in p.t.items():
        hit = False
        for x, q in m:
            if x is a:
                if q != 1: return None
                hit = True
            elif a in x.fv and x not in allowed: return None
        if hit: T._acc(co, tuple(x for x in m if x[0] is not a), c)
    return Poly(co)
