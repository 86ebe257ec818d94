"""Shared state of worker threads: locks, atomics, partition by batch slot."""
from .c23 import *
from ..interp import St
from ..loops import leaves
SRC = ['src/Layers/Kernel.cpp', 'src/Layers/Pooling.cpp', 'src/Layers/Activation.cpp', 'src/Layers/ConnectedLayer.cpp', 'src/Layers/Softmax.cpp']
class Locks:
    """locks as heap state: how many shared locks are held, and the number of the critical section"""
    def __init__(self, I, shared, on_acquire=None, on_release=None):
        self.shared = shared; self.ids = {}; self.on = (on_acquire, on_release)
        self.st = I.newroot(VObj('locks', dict(held=ZERO, section=ZERO)), 'locks')
        for q in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'): I.chooks[q] = self.ctor
        I.vhooks['lock'] = self.meth; I.vhooks['lib:std::mutex'] = self.mutex; I.vhooks['lib:std::recursive_mutex'] = self.mutex; I.vhooks['lib:std::shared_mutex'] = self.mutex
    def cell(self, k): return self.st.sub(('f', k))
    def acquire(self, I, m):
        s = 1 if self.shared(m) else 0
        I.store(self.cell('held'), I.simp(I.load(self.cell('held')) + s)); I.store(self.cell('section'), I.simp(I.load(self.cell('section')) + 1))
        if s and self.on[0]: self.on[0](I)
    def free(self, I, m):
        s = 1 if self.shared(m) else 0
        I.store(self.cell('held'), I.simp(I.load(self.cell('held')) - s))
        if s and self.on[1]: self.on[1](I)
    def ctor(self, I, ty, args):
        if not args or not isinstance(args[0], LV): return VObj('lock', {'held': ZERO, 'm': VOpq('none')})
        v = I.load(args[0])
        if isinstance(v, VObj) and v.cls == 'lock': I.store(args[0], VObj('lock', {**v.f, 'held': ZERO})); return v
        held = ONE
        if len(args) > 1:
            t = I.peek(args[1])
            if isinstance(t, VOpq) and ('defer' in t.kind or 'try' in t.kind): held = ZERO
            elif not (isinstance(t, VOpq) and 'adopt' in t.kind) and isinstance(t, VOpq) and 'mutex' in t.kind: self.acquire(I, args[1])
            elif isinstance(t, VOpq) and 'adopt' in t.kind: return VObj('lock', {'held': ONE, 'm': VPtr(args[0])})
        if held.t: self.acquire(I, args[0])
        return VObj('lock', {'held': held, 'm': VPtr(args[0])})
    def meth(self, I, fd, obj, v, args):
        nm = fd['n'] if fd else 'end'
        m = v.f['m'].lv if isinstance(v.f['m'], VPtr) else None
        def rel():
            if m is not None: self.free(I, m)
            I.store(obj, VObj('lock', {**v.f, 'held': ZERO}))
        if nm in ('unlock', 'end'): I.branch(v.f['held'], rel, lambda: None); return VOID
        if nm == 'lock':
            if m is not None: self.acquire(I, m)
            I.store(obj, VObj('lock', {**v.f, 'held': ONE})); return VOID
        if nm in ('owns_lock', 'operator bool'): return v.f['held']
        raise Unsupported('lock::' + nm)
    def mutex(self, I, fd, obj, v, args):
        if fd['n'] in ('lock', 'lock_shared'): self.acquire(I, obj); return VOID
        if fd['n'] in ('unlock', 'unlock_shared'): self.free(I, obj); return VOID
        return NotImplemented
def changes(I, H0, H1, skip):
    """leaves of roots existing before that have changed: (root, path, binders, before, after); None instead of leaves for a whole root"""
    for r, v0 in H0.items():
        if r[0] in skip: continue
        v1 = H1.get(r)
        if v1 is None or v1 is v0 or veq(v0, v1): continue
        l0 = leaves(v0); l1 = leaves(v1)
        if [x[:2] for x in l0] != [x[:2] for x in l1]: yield r, None, (), v0, v1; continue
        for (q, b, p0), (_, _, p1) in zip(l0, l1):
            if p0 != p1: yield r, q, b, p0, p1
GHOST = ('epoch', 'counters', 'layers', 'assigned', 'source', 'locks', 'own', 'std::cout', 'shadow')
def atomic_path(v, q):
    for k in q:
        if isinstance(v, VObj):
            if v.cls in ('atomic', 'stream', 'lock'): return True
            v = v.f.get(k)
        elif isinstance(v, VVec): v = v.body if k == 'body' else None
        else: return False
        if v is None: return False
    return isinstance(v, VObj) and v.cls in ('atomic', 'stream', 'lock')
class Shared(Epoch):
    """the epoch with its locks, and the effect of one worker on everything that existed before it was started"""
    def setup(self, I, pre):
        super().setup(I, None)
        base_thread = I.chooks['std::thread']
        self.work = None; self.spawned = set()
        L = self.locks = Locks(I, lambda m: self.work is None or m.root in self.work or m.root[0] in ('global',))
        self.own = I.newroot(VVec(1, self.B, ZERO, None), 'own')
        self.tested = I.newroot(P(-1), 'locks')
        I.chooks['std::atomic'] = lambda I, ty, args: VObj('atomic', {'v': I.peek(args[0]) if args else ZERO})
        def ob(what, cond): I.oblige('contract: ' + what, cond)
        def thread(I, ty, args):
            f = I.peek(args[0]) if args else None
            if not isinstance(f, VFun): return base_thread(I, ty, args)
            if self.work is not None: raise Unsupported('a worker starts a thread')
            H0 = dict(I.st.heap)
            I.store(self.own, VVec(1, self.B, ZERO, None))
            I.store(L.st, VObj('locks', dict(held=ZERO, section=ZERO)))
            self.work = set(H0)
            try: r = base_thread(I, ty, args)
            finally: self.work = None
            for rt, q, bs, p0, p1 in changes(I, H0, I.st.heap, GHOST):
                nm = rt[0]
                if q is None: ob('a worker writes %s only atomically, under the lock or in its own batch slots' % nm, ZERO) if not (isinstance(p1, VOpq) and p1.kind.startswith('?')) else ob('a worker writes %s only in its own batch slots' % nm, sym('?unsummarised', True, True)); continue
                if atomic_path(H0[rt], q): continue
                v0 = H0[rt]
                if isinstance(v0, VVec) and q and q[0] == 'body':
                    J = n('slot')
                    o = I.load(self.own)
                    cond = OR(eq(p1, p0), o.body if isinstance(o, VVec) else sym('?own', True, True))
                    ob('a worker writes elements of %s only in its own batch slots' % nm, OR(subst(cond, {BV(v0.h): J}), 1 - lt(J, v0.size)))
                else: ob('a worker writes %s only atomically, under the lock or in its own batch slots' % nm, eq(p1, p0))
            for k, v in f.caps.items():
                if isinstance(v, LV) and isinstance(I.st.heap.get(v.root), Poly): self.spawned.add(v.root)
            return r
        I.chooks['std::thread'] = thread
        tm = I.vhooks['thread']
        def tmeth(I, fd, obj, v, args):
            if fd['n'] == 'join': self.spawned.clear()
            return tm(I, fd, obj, v, args)
        I.vhooks['thread'] = tmeth
        store = I.store
        def st(lv, val):
            if isinstance(lv, LV) and self.work is None and not lv.path and lv.root in self.spawned: ob('%s is not changed while the workers use it' % lv.root[0], ZERO)
            store(lv, val)
        I.store = st
        src = I.vhooks['source']
        def held(): return ge(I.load(L.cell('held')), 1)
        def source(I, fd, obj, v, args):
            if self.work is not None: ob('the data source is only touched under the lock', held())
            else: ob('the data source is not touched while workers run', eq(I.load(self.cell('running')), ZERO))
            if fd['n'] == 'hasAvailableData' and self.work is not None: I.store(self.tested, I.load(L.cell('section')))
            if fd['n'] == 'getNextDataPoint' and self.work is not None:
                ob('availability is tested in the critical section of the fetch', eq(I.load(self.tested), I.load(L.cell('section'))))
            return src(I, fd, obj, v, args)
        I.vhooks['source'] = source
        M = 'my_cnn::ModelDescription::forwardPropagation'
        f0 = I.hooks[M]
        def fwd(I, fd, obj, args):
            b_ = I.peek(args[1])
            if self.work is not None: I.store(self.own.sub(('e', P(b_))), ONE)
            r = f0(I, fd, obj, args)
            return VObj(r.cls, {**r.f, 'loss': 2 + P(b_)})
        I.hooks[M] = fwd
        if pre: pre(self, I)
class LayerRun:
    """one call on a layer whose other batch slots are arbitrary"""
    def __init__(self, b): self.b = b; self.layer = None; self.reads = set(); self.names = set(); self.acq = None; self.writes = set()
    def setup(self, I):
        def shared(m): return self.layer is not None and (m.root == self.layer.root or any(g.root == m.root and not I.tls.get(k) for k, g in I.globals.items()))
        def acq(I): self.acq = I.st.heap.get(self.layer.root)
        def rel(I):
            if self.layer is None: return
            v = I.st.heap.get(self.layer.root)
            if v is not self.acq: I.store(self.shadow, v)
        self.locks = Locks(I, shared, acq, rel)
        def mark(I, fd, obj, args):
            lv = args[0]; v = I.load(lv)
            def havoc(v, k):
                if isinstance(v, VVec):
                    nm = 'slots.' + k; self.names.add(nm)
                    ix = P(BV(v.h))
                    def leaf(p, bs, path):
                        if path and path[-1] == 'size' and not bs: return p
                        q = app(nm + '.' + '.'.join(str(x) for x in path), [ix] + [P(x) for x in bs if x in MB], True if path and (str(path[-1]).startswith('dim') or path[-1] == 'has') else False, bool(path and path[-1] == 'has'), True if path and str(path[-1]).startswith('dim') else False)
                        return ite(eq(ix, self.b), p, q)
                    return VVec(v.h, v.size, vmap(v.body, leaf, (BV(v.h),), ('body',)), v.et)
                return v
            nv = VObj(v.cls, {k: havoc(x, k) for k, x in v.f.items()})
            I.store(lv, nv); self.layer = lv
            self.shadow = I.newroot(nv, 'shadow'); self.initial = I.newroot(nv, 'shadow')
            I.store(self.locks.st, VObj('locks', dict(held=ZERO, section=ZERO)))
            return VOID
        I.hooks['drv::mark'] = mark
        load, store = I.load, I.store
        def ld(lv):
            if self.layer is not None and isinstance(lv, LV) and lv.root == self.layer.root and lv.path and lv.path[0][0] == 'f':
                if I.st.heap[self.locks.st.root].f['section'].const() == 0: self.reads.add((lv.path[0][1], I.where()))
            return load(lv)
        def st(lv, val):
            if self.layer is not None and isinstance(lv, LV):
                if lv.root == self.layer.root and lv.path and lv.path[0][0] == 'f' and I.st.heap.get(lv.root) is not None:
                    own = len(lv.path) > 1 and lv.path[1][0] == 'e' and I.simp(eq(P(lv.path[1][1]), self.b)).const() == 1
                    v0 = I.st.heap[lv.root]
                    if not own and not (isinstance(v0, VObj) and atomic_path(v0, [lv.path[0][1]])) and I.simp(ge(load(self.locks.cell('held')), 1)).const() != 1:
                        self.writes.add((lv.path[0][1], '.'.join(str(x[1]) for x in lv.path[1:]), I.where()))
                for k, g in I.globals.items():
                    if g.root == lv.root and not I.tls.get(k):
                        old = I.st.heap.get(lv.root)
                        if old is not val: I.oblige('contract: a static or global variable (%s) is only changed under a lock' % lv.root[0], ge(load(self.locks.cell('held')), 1))
            store(lv, val)
        I.load, I.store = ld, st
    def other(self, p):
        """the same term when the contents of all other slots were different"""
        def has(x): return any(str(y).startswith(nm + '.') for m in x.t for a, _ in m for y in a.syms for nm in self.names)
        def mp(p):
            if not has(p): return p
            out = ZERO
            for m, c in p.t.items():
                r = P(c)
                for a, q in m:
                    t = ma(a)
                    if q < 0: t = inv(t); q = -q
                    for _ in range(q): r = r * t
                out = out + r
            return out
        def ma(a):
            if a.k == 'app' and any(str(a.a[0]).startswith(nm + '.') for nm in self.names):
                args = [mp(x) for x in a.a[1]]
                x = app(a.a[0], args, a.isint and not a.isbool, a.isbool, a.nn); y = app('other ' + a.a[0], args, a.isint and not a.isbool, a.isbool, a.nn)
                return ite(eq(args[0], self.b), x, y)
            if not has(P(a)): return P(a)
            r = T.rebuild(a, mp)
            return T.rebind(a, mp, None) if r is None else r
        return mp(p)
RULE2 = 'effect summary of one worker on everything that exists before it starts: unchanged, atomic, or only elements of its own batch slots'
class Fixed(Run): fixed = True
class Erun(Erun): fixed = True
class Mrun(Mrun): fixed = True
def run(c):
    N, B, T, S, q, E = map(n, 'N B T S q E'.split()); lr = r('lr')
    def epoch(c):
        h = H(c, ['model.cpp'])
        L = Layers(N, ZERO)
        ep = Shared(h, L, B, T, S, q, lr, b('av'))
        R = Erun(c, h, 'epoch', ep, E, [B - 1, T - 1, N - 1, B - 1 - q], RULE2, tag='runEpoch', skip=('vector index', 'matrix position', 'array index', 'vector size', 'contract: a thread', 'contract: a running', 'contract: a sample is given', 'contract: a backward', 'contract: the backward', 'contract: a forward', 'contract: no worker', 'contract: the update', 'contract: layers'))
        if R.err: R.add('worker', 'undecided', R.err)
    def valid(c):
        h = H(c, ['validate.cpp'])
        L = Layers(N, ZERO)
        ep = Shared(h, L, B, T, S, q, lr, ONE)
        def pre(ep, I):
            ob = lambda what, cond: I.oblige('contract: ' + what, cond)
            I.hooks['ctor my_cnn::MNISTReader'] = lambda I, *a: VOpq('reader')
            def reader(I, fd, obj, v, args):
                nm = fd['n']
                if nm == 'numImages': return P(S)
                if nm in ('getImage', 'nextImage', 'imageIndex'):
                    if ep.work is not None: ob('the data source is only touched under the lock', ge(I.load(ep.locks.cell('held')), 1))
                    if nm == 'imageIndex': return n('index')
                    t = [P(v) for vs, bs in I.loopvars for v in vs]
                    return VObj('my_cnn::Image', {'data': VMat(SM, (ONE, ONE, ONE), app('Data', t)), 'label': app('Label', t, True, False, True)})
                return NotImplemented
            I.vhooks['reader'] = reader
            for k in ('numImages', 'getImage', 'nextImage', 'imageIndex'): I.hooks['my_cnn::MNISTReader::' + k] = lambda I, fd, obj, args: reader(I, fd, obj, None, args)
            for k in ('my_cnn::printImage', 'operator<<'): I.hooks[k] = lambda I, fd, obj, args: args[0] if args else VOID
            def res(I, fd):
                for tu, d in enumerate(I.p.tus):
                    if fd in d['fdecls']: break
                v = I.default_ctor(I.p.type(tu, fd['rt']), tu)
                return I.load(v) if isinstance(v, LV) else v
            def fwd(I, fd, obj, args):
                if ep.work is not None:
                    sl = P(I.peek(args[1])); vs = [v for vv, bs in I.loopvars for v in vv]
                    w = vs[ep.level] if len(vs) > ep.level else None
                    other = subst(sl, {v: n('other%d' % i) for i, v in enumerate(vs)})
                    if w is None: return res(I, fd)
                    ob('two workers never use the same batch slot', OR(1 - eq(sl, other), eq(P(w), n('other%d' % ep.level))))
                    ob('a worker uses a slot the layers have', lt(sl, I.load(ep.slots)))
                    I.store(ep.own.sub(('e', sl)), ONE)
                return res(I, fd)
            I.hooks['my_cnn::ModelDescription::forwardPropagation'] = fwd
            ep.slots = I.newroot(ONE, 'locks'); ep.level = 0
            lh = I.vhooks['layer']
            def layer(I, fd, obj, v, args):
                if fd['n'] == 'setBatchSize': I.store(ep.slots, I.peek(args[0])); return VOID
                return lh(I, fd, obj, v, args)
            I.vhooks['layer'] = layer
        R = Erun(c, h, 'validate_', ep, E, [B - 1, T - 1, N - 1, B - 1 - q, S - 1], RULE2, pre, tag='validate', skip=('vector index', 'matrix position', 'array index', 'vector size', 'contract: a thread', 'contract: a running', 'optional'))
        if R.err: R.add('worker', 'undecided', R.err)
    def passes(c, ent):
        """a pass over the layers changes nothing of the model itself"""
        h = H(c, ['model.cpp'])
        K, bi = n('K'), n('b')
        L = Layers(N, bi); S = LayerRun(bi); seen = {}
        L0 = L.setup
        def setup(I):
            L0(I); S.setup(I); S.layer = I.newroot(ZERO, 'locks'); S.shadow = S.initial = S.layer
        L.setup = setup
        given = dict(b=bi, X=act(0, 'my_cnn::SimpleMatrix<double>')) if ent == 'forward' else dict(b=bi, label=z('label'))
        R = Mrun(c, h, ent, L, given, [N - 1], RULE2, K, recorded='r' if ent == 'backward' else None, skip=('vector', 'matrix', 'array', 'optional', 'division', 'contract: a layer', 'contract: only', 'contract: the output'))
        if R.err: return R.add('effect on the model', 'undecided', R.err)
        r0 = R.I.arg_lvs['m'].root; v0 = R.I.given['m']
        for e in R.out.exits:
            if e.kind not in ('return', 'throw') or r0 not in e.heap: continue
            what = 'return' if e.kind == 'return' else 'throw %s' % e.val[0]
            l0, l1 = leaves(v0), leaves(e.heap[r0])
            if [x[:2] for x in l0] != [x[:2] for x in l1]: R.add('effect on the model (%s)' % what, 'undecided', 'shape of the summary'); continue
            for (pq, bs, p0), (_, _, p1) in zip(l0, l1):
                if p0 != p1 and not atomic_path(v0, pq): R.eq('model member %s is not changed (%s)' % ('.'.join(str(x) for x in pq if x != 'body'), what), p1 * e.cond, p0 * e.cond)
            R.add('effect on the model (%s)' % what, 'proved', '%d members unchanged' % len(l0))
    RL = 'effect summary of a layer call: everything is as before except the batch slot it was given; what changes under a lock is not looked at before it'
    fx, fy, fz, nf, s, ox, oy, rx, ry, m, ix, iy, iz, b_, t = map(n, 'fx fy fz nf s ox oy rx ry m ix iy iz b t'.split())
    px, py, sx, sy = map(n, 'px py sx sy'.split())
    f = b('first')
    kx, ky = fx + (ox - 1) * s + rx, fy + (oy - 1) * s + ry
    qx, qy = px + (ox - 1) * sx + rx, py + (oy - 1) * sy + ry
    slot = [B - 1 - b_]
    kf = [fx - 1, fy - 1, fz - 1, nf - 1, s - 1, ox - 1, oy - 1, s - 1 - rx, s - 1 - ry] + slot
    kg = dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, B=B, X=mat('X', (kx, ky, fz)), Y=mat('Y', (ox, oy, nf)), G=mat('G', (ox, oy, nf)), b=b_, f=f)
    pf = [px - 1, py - 1, sx - 1, sy - 1, ox - 1, oy - 1, iz - 1, sx - 1 - rx, sy - 1 - ry] + slot
    pg = dict(px=px, py=py, sx=sx, sy=sy, B=B, X0=mat('X', (qx, qy, iz)), X=mat('X', (qx, qy, iz)), Y=mat('Y', (ox, oy, iz)), G=mat('G', (ox, oy, iz)), b=b_, f=f)
    ag = dict(B=B, X=mat('X', (ix, iy, iz)), Y=mat('Y', (ix, iy, iz)), G=mat('G', (ix, iy, iz)), b=b_, f=f)
    cf = [m - 1, ix - 1, iy - 1, iz - 1] + slot
    cg = dict(m=m, B=B, X0=mat('X0', (ix, iy, iz)), X=mat('X', (ix, iy, iz)), Y=mat('Y', (m, 1, 1)), G=mat('G', (m, 1, 1)), b=b_, f=f)
    sf = [m - 1 - t] + slot
    sg = dict(m=m, B=B, X=mat('X', (m, 1, 1)), Y=mat('Y', (m, 1, 1)), G=mat('G', (m, 1, 1)), b=b_, f=f, t=t)
    ENT = [('kernel_fwd', kf, kg), ('kernel_bwd', kf, kg)] + [('pooling_%s_%s' % (d, k), pf, pg) for d in ('fwd', 'bwd') for k in ('MAX', 'MIN', 'AVG')] + \
          [('activation_fwd', slot, ag), ('activation_bwd', slot, ag), ('connected_first', cf, cg), ('connected_fwd', cf, cg), ('connected_bwd', cf, cg), ('softmax_fwd', sf, sg), ('softmax_bwd', sf, sg), ('softmax_lab', sf, sg)]
    def layer(c, ent, facts, given):
        h = H(c, ['slots.cpp'] + SRC)
        ps, tu = h.params('drv::' + ent)
        given = {k: v for k, v in given.items() if k in [p[0] for p in ps]}
        S = LayerRun(b_)
        R = Fixed(c, h, 'drv::' + ent, facts, given, ent, RL, tag=ent, limit=300, setup=S.setup, skip=('vector', 'matrix', 'array', 'optional', 'division'))
        if R.err: return R.add('effect on the layer', 'undecided', R.err)
        if S.layer is None: return R.add('effect on the layer', 'undecided', 'layer object not seen')
        guarded = set()
        for e in R.out.exits:
            if e.kind not in ('return', 'throw') or S.layer.root not in e.heap: continue
            what = 'return' if e.kind == 'return' else 'throw %s' % e.val[0]
            v1 = e.heap[S.layer.root]; v0 = e.heap[S.shadow.root]; vi = e.heap[S.initial.root]
            l0, l1 = leaves(v0), leaves(v1)
            if [x[:2] for x in l0] != [x[:2] for x in l1]: R.add('effect on the layer (%s)' % what, 'undecided', 'shape of the summary'); continue
            for (pq, bs, p0), (_, _, pi) in zip(leaves(v0), leaves(vi)):
                if p0 != pi: guarded.add(pq[0])
            cnt = 0
            for (pq, bs, p0), (_, _, p1) in zip(l0, l1):
                if atomic_path(v0, pq): continue
                if p0 == p1: cnt += 1; continue
                sb = {}
                vb = [x for x in bs if x not in MB]
                cond = ONE
                if vb: J = n('slot'); sb[vb[0]] = J; cond = 1 - eq(J, b_)
                R.eq('member %s changes only in the own batch slot (%s)' % ('.'.join(str(x) for x in pq if x != 'body'), what), subst(p1, sb) * cond * e.cond, subst(p0, sb) * cond * e.cond)
            R.add('effect on the layer (%s)' % what, 'proved', '%d members unchanged' % cnt)
        for fld, where in sorted(S.reads):
            if fld in guarded: R.add('member %s, which is changed under a lock, is not read before taking it (%s)' % (fld, where), 'refuted', 'read at %s while another worker may be changing it' % where, where)
        for fld, rest, where in sorted(S.writes): R.add('member %s is not written outside the own batch slot (%s)' % (fld, where), 'refuted', 'write to %s %s at %s without a lock' % (fld, rest, where), where)
        # what the call produces does not depend on other slots
        try:
            v, F = R.result(None)
            ls = [x for x in leaves(v)] if v is not VOID else []
        except (Unsupported, KeyError, AttributeError) as ex: return R.add('independent of other slots', 'undecided', str(ex))
        for pq, bs, p in ls:
            q = S.other(p)
            if q == p: continue
            R.eq('the result does not depend on other batch slots (%s)' % '.'.join(map(str, pq)), p, q, F)
        R.add('result depends only on the own slot', 'proved')
    H(c, ['model.cpp']); H(c, ['validate.cpp']); H(c, ['slots.cpp'] + SRC)
    par(c, [epoch, valid, lambda c: passes(c, 'forward'), lambda c: passes(c, 'backward')] + [lambda c, a=a: layer(c, *a) for a in ENT])
