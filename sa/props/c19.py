"""Prediction, confidence and loss of the evaluated sample."""
from .model import *
from fractions import Fraction
import struct
F32 = Fraction(struct.unpack('f', struct.pack('f', 1e-5))[0])
def lossv(p): return [ite(ge0(-fn('log2', P(p) + e)), -fn('log2', P(p) + e), ZERO) for e in (F32, Fraction(1e-5), Fraction(1, 100000))]
def run(c):
    N, bi, lab, K, i, S = n('N'), n('b'), z('label'), n('K'), n('i'), n('S')
    h = H(c, ['model.cpp'])
    W = 'src/ModelDescription.tpp '
    RL = 'value-flow summary of the loss equals max(0, -log2(p + 1e-5)) at the position of the true label'
    def loss(c):
        for ent in ('loss', 'lossf'):
            R = Run(c, h, 'drv::' + ent, [K - 1 - i], dict(p=mat('Pr', (K, 1, 1)), i=i), W + 'lossFcn', RL)
            R.throws(ZERO, None, 'accepted'); R.scalar(None, lossv(app('Pr', [i, 0, 0])), 'loss of the indexed probability')
    def assign(c, ent):
        L = Layers(N, bi)
        v = fresh('q', 2)
        found = mkex(v, K, eq(lab, app('lbl', [P(v)], True)))
        pos = first([v], [K], eq(lab, app('lbl', [P(v)], True)), 0)
        def out(I, given): pass
        R = Mrun(c, h, ent, L, dict(label=lab), [N, K - 1, app('ActX', [N], True, False, True) - K], RL, K, recorded='r', skip=('matrix position',))
        R.throws(1 - found, 'std::exception', 'a label that is not in the list is refused')
        if not R.err:
            try:
                r, F = R.result('r')
                R.eq('position of the true label', r.f['true_label_idx'], pos, F)
                R.eq('true label is recorded', r.f['true_label'].has, ONE, F); R.eq('true label', r.f['true_label'].val, lab, F)
                p = app('Act', [N, pos, 0, 0])
                G = F.add_ge(*[x for q in 'YZ' for x in (app('Act' + q, [N], True, False, True) - 1, 1 - app('Act' + q, [N], True, False, True))])
                R.eq('loss of the last output at that position', r.f['loss'], lossv(p), G)
            except (Unsupported, KeyError, AttributeError) as e: R.add('result', 'undecided', str(e))
        # nothing is read when the label is unknown: no labels, no recorded output
        R = Mrun(c, h, ent, L, dict(label=lab), [], 'no output is read for an unknown label', ZERO, recorded='r', empty=True)
        R.throws(ONE, 'std::exception', 'refused without labels and outputs')
    def fwd(c, ent, xt):
        L = Layers(N, bi)
        dn = [app('Act' + q, [N], True, False, True) for q in 'XYZ']
        R = Mrun(c, h, ent, L, dict(X=act(0, 'my_cnn::SimpleMatrix<%s>' % xt), b=bi), [N - 1] + [q - 1 for q in dn], 'value-flow summary of the forward pass: reported index and confidence are those of the largest output', K, skip=('matrix position', 'contract'))
        if R.err: return R.add('prediction', 'undecided', R.err)
        v = [fresh('q', 2) for _ in 'xyz']
        f = app('Act', [N] + [P(q) for q in v])
        co = [[best(v, dn, f, k, j) for j in range(3)] for k in ('max', 'maxlast')]
        try:
            r, F = R.result()
            R.eq('predicted index is the position of the largest output', r.f['label_idx'], [flat(q, dn) for q in co], F)
            R.eq('confidence is the largest output', r.f['confidence'], [app('Act', [N] + q) for q in co] + [best(v, dn, f, 'max', 'val')], F)
        except (Unsupported, KeyError, AttributeError) as e: R.add('prediction', 'undecided', str(e))
    def flat(p, d): return P(p[0]) + P(p[1]) * d[0] + P(p[2]) * d[0] * d[1]
    par(c, [loss] + [lambda c, e=e: assign(c, e) for e in ('assign', 'assignf')] + [lambda c: fwd(c, 'forward', 'double'), lambda c: fwd(c, 'forwardf', 'float')])
