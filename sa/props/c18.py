"""Softmax output layer."""
from .common import *
from ..evalterm import wide
def run(c):
    h = H(c, ['softmax.cpp', 'src/Layers/Softmax.cpp'])
    nl, ix, iy, iz, B, idx, idx2, idx3, la, la2 = map(n, 'nl ix iy iz B idx idx2 idx3 label label2'.split())
    last = b('last')
    A = lambda nm, *a: app(nm, a)
    where = 'src/Layers/Softmax.cpp Softmax::'
    # column and row vectors
    for tag, d in (('column', (nl, 1, 1)), ('row', (1, nl, 1))):
        p = (lambda i: (i, 0, 0)) if tag == 'column' else (lambda i: (0, i, 0))
        R = Run(c, h, 'drv::softmax_forward', [nl - 1], dict(nl=nl, X=mat('X', d)), where + 'propagateForward', 'value-flow summary equals exp(x - max)/sum', tag='softmax_forward(%s)' % tag)
        R.throws(ZERO, None, 'a %s of label-count elements is accepted' % tag)
        def want(x, y, q):
            v = fresh('m', 2)
            mx = best([v], [P(nl)], A('X', *p(P(v))), 'max', 'val')
            i = x if tag == 'column' else y
            e = lambda j: fn('exp', A('X', *p(j)) - mx)
            return e(i) * inv(ssum((nl,), e))
        k0 = len(c.obl)
        o = R.matrix(None, d, want, 'output')
        # equal as real numbers but not term by term: the exponentials may leave the range of numbers where the documented formula does not
        if o and INST[0] is None and any(q['status'] == 'undecided' for q in c.obl[k0:]) and isinstance(o[0], VMat):
            G = o[1].add_ge(*[x for m, w in zip(MB, d) for x in (P(m), P(w) - 1 - P(m))])
            bad = wide(G, o[0].body, want(X0, Y0, Z0))
            if bad: R.add('output: inputs of large magnitude', 'refuted', 'computed %s where exp(x - max)/sum is %s, for %s and inputs of several hundred' % (bad[1], bad[2], {show_atom(k): v for k, v in bad[0].items()}))
    bad = 1 - lt(la, nl) * lt(la2, nl)
    has = OR(eq(idx3, idx), eq(idx3, idx2))
    lab = ite(eq(idx3, idx2), la2, la)
    for tag, d in (('column', (nl, 1, 1)), ('row', (1, nl, 1))):
        R = Run(c, h, 'drv::softmax_backward', [nl - 1, B - 1 - idx, B - 1 - idx2, B - 1 - idx3, ],
            dict(nl=nl, B=B, X=mat('X', d), Z=mat('Z', d), G=mat('G', d), label=la, idx=idx, label2=la2, idx2=idx2, idx3=idx3, last=last),
            where + 'propagateBackward', 'value-flow summary equals output minus one-hot(label of the same batch index)', tag='softmax_backward(%s)' % tag)
        R.throws(1 - (1 - bad) * has, None, 'refused exactly when a label is outside the label set or none was assigned to the index')
        R.matrix(None, d, lambda x, y, q: A('Z', x, y, 0) - eq(x if tag == 'column' else y, lab), 'input gradient', cond=(1 - bad) * has)
        R = Run(c, h, 'drv::softmax_default', [nl - 1], dict(nl=nl, X=mat('X', d), Z=mat('Z', d), G=mat('G', d), label=la, last=last),
            where + 'propagateBackward', 'value-flow summary equals output minus one-hot(label) without any batch size being set', tag='softmax_default(%s)' % tag)
        R.throws(1 - lt(la, nl), None, 'refused exactly when the label is outside the label set')
        R.matrix(None, d, lambda x, y, q: A('Z', x, y, 0) - eq(x if tag == 'column' else y, la), 'input gradient', cond=lt(la, nl))
    R = Run(c, h, 'drv::softmax_reset', [nl - 1, nl - 1 - la, B - 1 - idx, B - 1 - idx3],
            dict(nl=nl, B=B, X=mat('X', (nl, 1, 1)), Z=mat('Z', (nl, 1, 1)), G=mat('G', (nl, 1, 1)), label=la, idx=idx, idx3=idx3, last=last),
            where + 'setBatchSize', 'labels of an earlier batch are forgotten')
    R.throws(ONE, None, 'refused after the batch was reset')
