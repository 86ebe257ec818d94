"""Epochs: the worker partition, the number of batches, the update between batches, the success count, the rewind."""
from .model import *
SM = 'my_cnn::SimpleMatrix<float>'
HINT.update(B=(5, 2), T=(4, 3), q=(4, 1), S=(7, 3), N=(2, 1), E=(2, 1))
class Epoch:
    """hooks for the parts an epoch is made of; every count is kept per batch slot or per layer"""
    def __init__(self, h, L, B, T, S, q, lr, av):
        self.h = h
        self.L, self.B, self.T, self.S, self.q, self.lr, self.av = L, B, T, S, q, lr, av
    def setup(self, I, pre):
        L = self.L
        L.setup(I)
        if I.inst: self.B, self.T, self.S, self.q = [subst(P(x), I.inst) for x in (self.B, self.T, self.S, self.q)]
        self.st = I.newroot(VObj('epoch', dict(running=ZERO, fwd=ZERO, bwd=ZERO, reset=ZERO, epochs=ZERO, dirty=ZERO, pending=ZERO, started=ZERO)), 'epoch')
        def cell(k): return self.st.sub(('f', k))
        def bump(k, d=1): I.store(cell(k), I.simp(I.load(cell(k)) + d))
        self.bump = bump; self.cell = cell
        def ob(what, cond): I.oblige('contract: ' + what, cond)
        def thread(I, ty, args):
            if not args: return VOpq('thread', (ZERO,))
            f = I.peek(args[0])
            if isinstance(f, VOpq) and f.kind == 'thread': return f
            bump('running')
            I.invoke(f, list(args[1:]))
            return VOpq('thread', (ONE,))
        def tmeth(I, fd, obj, v, args):
            nm = fd['n']
            if nm == 'operator=':
                w = I.peek(args[0])
                ob('a running thread is not overwritten', eq(v.d[0], ZERO))
                I.store(obj, w); return obj
            if nm == 'join':
                ob('a thread is joined once', eq(v.d[0], ONE))
                bump('running', -1); I.store(obj, VOpq('thread', (ZERO,))); return VOID
            if nm == 'joinable': return v.d[0]
            return NotImplemented
        I.chooks['std::thread'] = thread; I.vhooks['thread'] = tmeth
        I.chooks['std::atomic'] = lambda I, ty, args: I.peek(args[0]) if args else ZERO
        def source(I, fd, obj, v, args):
            nm = fd['n']
            if nm == 'size': return P(self.S)
            if nm == 'hasAvailableData': return P(self.av)
            if nm == 'reset': bump('reset'); I.store(cell('dirty'), ZERO); return VOID
            if nm == 'getNextDataPoint':
                ob('a sample is only taken when one is available', P(self.av))
                I.store(cell('pending'), ONE); I.store(cell('dirty'), ONE)
                t = tok(I)
                return VObj('my_cnn::LabeledInput<float>', {'data': VMat(SM, (ONE, ONE, ONE), app('Data', t)), 'label': VStr([('sym', app('Label', t, True))])})
            return NotImplemented
        def tok(I): return [P(v) for vs, bs in I.loopvars for v in vs]
        I.vhooks['source'] = source
        M = 'my_cnn::ModelDescription::'
        def fwd(I, fd, obj, args):
            A = [I.peek(a) for a in args]
            ob('a sample is given a slot inside the batch', AND(ge0(A[1]), lt(A[1], self.B)))
            at_q = eq(A[1], self.q)
            ob('a forward pass uses a sample fetched for it', I.load(cell('pending')))
            if isinstance(A[0], VMat): ob('a forward pass uses the sample fetched for it', eq(subst(A[0].body, dict(zip(MB, [ZERO] * 3))), app('Data', tok(I))))
            I.store(cell('pending'), ZERO)
            bump('fwd', at_q)
            for tu, d in enumerate(I.p.tus):
                if fd in d['fdecls']: break
            v = I.default_ctor(I.p.type(tu, fd['rt']), tu)
            if isinstance(v, LV): v = I.load(v)
            return VObj(v.cls, {**v.f, 'label_idx': ZERO, 'true_label_idx': 2 + P(A[1])})
        def bwd(I, fd, obj, args):
            A = [I.peek(a) for a in args]
            ob('a sample is given a slot inside the batch', AND(ge0(A[2]), lt(A[2], self.B)))
            at_q = eq(A[2], self.q)
            ob('the backward pass uses the record of its own forward pass', eq(A[0].f['true_label_idx'], 2 + P(A[2])))
            if isinstance(A[1], VStr) and len(A[1].parts) == 1 and A[1].parts[0][0] == 'sym': ob('a backward pass uses the label fetched with the sample', eq(A[1].parts[0][1], app('Label', tok(I), True)))
            I.store(args[0].sub(('f', 'true_label_idx')), 1 - at_q)
            bump('bwd', at_q)
            return VOID
        I.hooks[M + 'forwardPropagation'] = fwd; I.hooks[M + 'backwardsPropagation'] = bwd
        I.hooks['loadingBar'] = lambda I, fd, obj, args: VOID
        lh = L.hook
        def layer(I, fd, obj, v, args):
            nm = fd['n']
            if nm == 'applyBatch':
                ob('no worker is running during an update', eq(I.load(cell('running')), ZERO))
                ob('the update uses the configured learning rate', eq(I.peek(args[0]), self.lr))
                L.bump(I, 'apply', v.d[0]); return VOID
            if nm == 'setBatchSize':
                ob('layers are sized for the configured batch', eq(I.peek(args[0]), self.B))
                ob('layers are sized before the first epoch', eq(I.load(cell('started')), ZERO))
                L.bump(I, 'batch', v.d[0]); return VOID
            return lh(I, fd, obj, v, args)
        I.vhooks['layer'] = layer
        if pre: pre(self, I)
class Erun(Mrun):
    def __init__(self, c, h, ent, ep, E, facts, rule, pre=None, **kw):
        given = {}
        def setup(I):
            ep.setup(I, pre)
            for nm, ty in h.params('drv::' + ent)[0]:
                if nm == 'm':
                    m = I.symv(ty, h.params('drv::' + ent)[1], nm)
                    f = dict(m.f); f['layers'] = ep.L.vector(); I.given[nm] = VObj(m.cls, f)
                if nm == 'd': I.given[nm] = I.newroot(VOpq('source', ()), 'source')
                if nm == 'p':
                    m = I.symv(ty, h.params('drv::' + ent)[1], nm)
                    I.given[nm] = VObj(m.cls, dict(learning_rate=P(ep.lr), batch_size=P(ep.B), num_threads=P(ep.T), num_epochs=subst(P(E), I.inst) if I.inst else P(E)))
        Run.__init__(self, c, h, 'drv::' + ent, facts, given, 'src/ModelDescription.tpp ' + ent, rule, limit=120, setup=setup, **kw)
RULE = 'value-flow summary of an epoch over a symbolic thread count, batch size, data size and layer count'
def run(c):
    N, B, T, S, q, E = map(n, 'N B T S q E'.split()); lr = r('lr')
    h = H(c, ['model.cpp'])
    W = 'src/ModelDescription.tpp runEpoch'
    def state(R, ep):
        heap, val, live = R.out.ret()
        return heap, val, R.F.assume(live), heap[ep.st.root]
    def epoch(c):
        L = Layers(N, ZERO)
        ep = Epoch(h, L, B, T, S, q, lr, ONE)
        R = Erun(c, h, 'epoch', ep, E, [B - 1, T - 1, N - 1, B - 1 - q], RULE, tag='runEpoch', skip=('vector index', 'matrix position', 'array index', 'vector size'))
        R.throws(ZERO, None, 'runs to its end')
        if R.err: return
        try: heap, val, F, st = state(R, ep)
        except Unsupported as e: return R.add('counts', 'undecided', str(e))
        ct = heap[L.cnt.root]
        if not isinstance(st, VObj) or not isinstance(ct, VObj) or not isinstance(ct.f['apply'], VVec): return R.add('counts', 'undecided', 'the epoch is not summarised')
        nb = subst(ct.f['apply'].body, {BV(1): ZERO})
        R.eq('every layer is updated as often as the first', ct.f['apply'].body, nb, F.add_ge(CP, N - 1 - CP))
        R.eq('the batches run cover the whole data source', lt(nb * B, S), ZERO, F)
        R.eq('every slot runs forward once per batch', st.f['fwd'], nb, F)
        R.eq('every slot runs backward once per batch', st.f['bwd'], nb, F)
        R.eq('correct predictions are counted once', val, nb, F)
        R.eq('no worker is left running', st.f['running'], ZERO, F)
    def train(c):
        # what an epoch does to the data source: taken from runEpoch itself (one batch, one slot)
        L = Layers(N, ZERO)
        ep = Epoch(h, L, B, T, S, q, lr, ONE)
        R0 = Erun(c, h, 'epoch', ep, E, [B - 1, T - 1, N - 1, B - 1 - q], RULE, tag='runEpoch', skip=('',))
        if R0.err: return R0.add('effect of an epoch on the data source', 'undecided', R0.err)
        try: heap, val, F, st = state(R0, ep); rs = F.simplify(st.f['reset'])
        except (Unsupported, AttributeError) as e: return R0.add('effect of an epoch on the data source', 'undecided', str(e))
        L = Layers(N, ZERO)
        ep = Epoch(h, L, B, T, S, q, lr, ONE)
        def pre(ep, I):
            def runep(I, fd, obj, args):
                p = I.peek(args[1])
                I.oblige('contract: an epoch starts with a rewound data source', eq(I.load(ep.cell('dirty')), ZERO))
                for k, v in dict(learning_rate=lr, batch_size=ep.B, num_threads=ep.T).items(): I.oblige('contract: the epoch uses the configured ' + k, eq(p.f[k], v))
                I.store(ep.cell('dirty'), ONE if not rs.t else ZERO); ep.bump('reset', rs); ep.bump('epochs'); I.store(ep.cell('started'), ONE)
                return app('correct', [P(v) for vs, bs in I.loopvars for v in vs], True, False, True)
            I.hooks['my_cnn::ModelDescription::runEpoch'] = runep
        R = Erun(c, h, 'train', ep, E, [B - 1, T - 1, N - 1, E, S - 1], 'value-flow summary of training over a symbolic number of epochs', pre, skip=('vector index', 'matrix position', 'array index', 'vector size'))
        R.throws(ZERO, None, 'runs to its end')
        if R.err: return
        try: heap, val, F, st = state(R, ep)
        except Unsupported as e: return R.add('counts', 'undecided', str(e))
        R.eq('the configured number of epochs is run', st.f['epochs'], E, F)
        R.eq('the data source is rewound after the last epoch', st.f['dirty'], ZERO, F)
        R.counters(L, batch=1)
    par(c, [epoch, train])
