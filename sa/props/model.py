"""Models whose layers are opaque: layer i maps its input to Act(i+1) and a gradient to Gr(i); every call is checked against
the input, output, gradient, batch index and flag it must get, and counted."""
from .common import *
CP = P(BV(1))
def act(i, cls, isint=False): return VMat(cls, tuple(app('Act' + q, [P(i)], True, False, True) for q in 'XYZ'), app('Act', [P(i), X0, Y0, Z0]))
def grad(i, cls): return VMat(cls, tuple(app('Gr' + q, [P(i)], True, False, True) for q in 'XYZ'), app('Gr', [P(i), X0, Y0, Z0]))
QX = dict(zip(MB, [n('qx'), n('qy'), n('qz')]))
def same(got, want):
    """every element and every size of the two matrices agree, as a condition over an arbitrary position"""
    c = AND(*[eq(a, b_) for a, b_ in zip(got.dim, want.dim)])
    ins = AND(*[lt(P(QX[m]), d) for m, d in zip(MB, want.dim)])
    return OR(AND(c, eq(subst(got.body, QX), subst(want.body, QX))), AND(c, 1 - ins))
class Layers:
    """installs N opaque layers in a model object"""
    def __init__(self, N, b):
        self.N = N; self.b = b; self.calls = []
    def setup(self, I):
        I.vhooks['layer'] = self.hook
        if I.inst: self.N, self.b = subst(P(self.N), I.inst), subst(P(self.b), I.inst)
        self.root = I.newroot(VVec(1, self.N, VOpq('layer', (CP,)), None), 'layers')
        self.cnt = I.newroot(VObj('counters', {k: VVec(1, self.N, ZERO, None) for k in ('fwd', 'bwd', 'asg', 'apply', 'batch')}), 'counters')
        self.lab = I.newroot(P(-1), 'assigned')
    def vector(self): return VVec(1, self.N, VPtr(self.root.sub(('e', CP))), None)
    def bump(self, I, k, i):
        lv = self.cnt.sub(('f', k), ('e', P(i)))
        I.store(lv, I.load(lv) + 1)
    def hook(self, I, fd, obj, v, args):
        i = v.d[0]; nm = fd['n']; N = self.N
        A = [I.peek(a) for a in args]
        def ob(what, cond): I.oblige('contract: ' + what, cond)
        if nm == 'propagateForward':
            ob('a layer is given the output of the layer before it', same(A[0], act(i, A[0].cls)))
            ob('a layer is given the caller\'s batch index', eq(A[1], self.b))
            self.bump(I, 'fwd', i)
            return act(i + 1, DM)
        if nm == 'propagateBackward':
            ob('a layer is given its own recorded input', same(A[0], act(i, A[0].cls)))
            ob('a layer is given its own recorded output', same(A[1], act(i + 1, A[1].cls)))
            ob('a layer is given the gradient of the layer after it', OR(eq(i, N - 1), same(A[2], grad(i + 1, A[2].cls))))
            ob('a layer is given the caller\'s batch index', eq(A[3], self.b))
            ob('only the first layer is told it is the first', eq(A[4], eq(i, 0)))
            self.bump(I, 'bwd', i)
            return grad(i, DM)
        if nm == 'getType': return P(5)
        if nm == 'assignTrueLabel':
            ob('only the output layer is given the label', eq(i, N - 1))
            ob('the output layer is given the caller\'s batch index', eq(A[1], self.b))
            I.store(self.lab, A[0]); self.bump(I, 'asg', i)
            return VOID
        if nm == 'checkSize': return sym('fits', True, True, True)
        return NotImplemented

class Mrun(Run):
    """entry over a model with opaque layers; recorded: name of a results parameter that holds the record of a forward pass"""
    def __init__(self, c, h, ent, L, given, facts, rule, K, recorded=None, empty=False, **kw):
        def setup(I):
            L.setup(I)
            ps, tu = h.params('drv::' + ent)
            for nm, ty in ps:
                if nm == 'm' or nm == recorded:
                    m = I.symv(ty, tu, nm)
                    if isinstance(m, LV): m = I.load(m)
                    f = dict(m.f)
                    if nm == 'm':
                        f['layers'] = L.vector(); v = f['output_labels']; f['output_labels'] = VVec(v.h, subst(P(K), I.inst) if I.inst else K, app('lbl', [P(BV(v.h))], True), v.et)
                    else:
                        v = f['layer_inputs']; f['layer_inputs'] = VVec(v.h, ZERO if empty else L.N + 1, act(P(BV(v.h)), v.body.cls), v.et)
                    I.given[nm] = VObj(m.cls, f)
        super().__init__(c, h, 'drv::' + ent, facts, given, 'src/ModelDescription.tpp ' + ent, rule, limit=60, setup=setup, **kw)
    def counters(self, L, pos=None, **want):
        if self.err: return self.add('calls', 'undecided', self.err)
        heap, val, live = self.out.ret()
        v = heap[L.cnt.root]
        names = dict(fwd='runs forward', bwd='runs backward', asg='is given the label', apply='is updated', batch='is sized')
        for k, w in want.items():
            F = self.F.assume(live)
            if isinstance(v, VOpq) or isinstance(v.f[k], VOpq): self.add('every layer %s exactly %s times' % (names[k], w), 'undecided', 'call counts are not summarised'); continue
            b_ = v.f[k].body
            if pos is None: F = F.add_ge(CP, L.N - 1 - CP)
            else: b_ = subst(b_, {BV(1): P(pos)})
            self.eq('%s layer %s exactly %s times' % ('every' if pos is None else 'output', names[k], w), b_, P(w), F)
    def record(self, L):
        if self.err: return self.add('record', 'undecided', self.err)
        v, F = self.result()
        r = v.f['layer_inputs']
        self.eq('records the input and every output: count', r.size, L.N + 1, F)
        i = n('ri'); G = F.add_ge(i, L.N - i)
        m = vsubst(r.body, {BV(r.h): i})
        if not isinstance(m, VMat): return self.add('record', 'undecided', 'recorded values are not summarised')
        for q, d in zip('XYZ', m.dim): self.eq('recorded %s size' % q, d, app('Act' + q, [i], True, False, True), G)
        G2 = G.add_ge(*[x for mm, q in zip(MB, 'XYZ') for x in (P(mm), app('Act' + q, [i], True, False, True) - 1 - P(mm))])
        self.eq('recorded values', m.body, app('Act', [i, X0, Y0, Z0]), G2)
