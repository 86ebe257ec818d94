"""Fully connected layer (gradients observed through one batch update with learning rate lr)."""
from .common import *
def unflat(p, a, b_): return [p - a * idiv(p, a), idiv(p, a) - b_ * idiv(p, a * b_), idiv(p, a * b_)]
def run(c):
    h = H(c, ['connected.cpp', 'src/Layers/ConnectedLayer.cpp'])
    no, ax, ay, az, ix, iy, iz, B, idx = map(n, 'no ax ay az ix iy iz B idx'.split())
    lr = r('lr'); last = b('last')
    pos = [no - 1, ax - 1, ay - 1, az - 1, ix - 1, iy - 1, iz - 1]
    W = mat('W', (no, ax * ay * az, 1)); bb = mat('b', (no, 1, 1))
    A = lambda nm, *a: app(nm, a)
    R = Run(c, h, 'drv::connected_forward', pos, dict(no=no, X0=mat('X0', (ax, ay, az)), W=W, b=bb, X=mat('X', (ix, iy, iz))),
            'src/Layers/ConnectedLayer.cpp ConnectedLayer::propagateForward', 'value-flow summary equals W*flatten(x)+b')
    ok = eq(ax * ay * az, ix * iy * iz)
    R.throws(1 - ok, 'my_cnn::ModelLayerException', 'input refused exactly when the element count differs')
    R.matrix(None, (no, 1, 1), lambda x, y, q: [
        A('b', x, 0, 0) + ssum((ax * ay * az,), lambda p: A('W', x, p, 0) * A('X', *unflat(p, ix, iy))),
        A('b', x, 0, 0) + ssum((ix * iy * iz,), lambda p: A('W', x, p, 0) * A('X', *unflat(p, ix, iy))),
        A('b', x, 0, 0) + ssum((ix, iy, iz), lambda i, j, k: A('W', x, i + ix * j + ix * iy * k, 0) * A('X', i, j, k))], 'output', cond=ok)
    R.matrix('W2', (no, ax * ay * az, 1), lambda x, y, q: A('W', x, y, q), 'weights unchanged', cond=ok)
    R.matrix('b2', (no, 1, 1), lambda x, y, q: A('b', x, y, q), 'biases unchanged', cond=ok)
    R = Run(c, h, 'drv::connected_first', [no - 1, ix - 1, iy - 1, iz - 1], dict(no=no, X=mat('X', (ix, iy, iz))),
            'src/Layers/ConnectedLayer.cpp ConnectedLayer::checkSize', 'value-flow summary equals W*flatten(x)+b with the parameters the layer ends up with')
    R.throws(ZERO, None, 'the first input settles the size')
    if not R.err:
        try:
            w2, _ = R.result('W2'); b2, _ = R.result('b2')
            if isinstance(w2, VMat) and isinstance(b2, VMat):
                R.matrix('W2', (no, ix * iy * iz, 1), None, 'weights sized after the first input')
                R.matrix(None, (no, 1, 1), lambda x, y, q: [
                    at(b2, x, 0, 0) + ssum((ix * iy * iz,), lambda p: at(w2, x, p, 0) * A('X', *unflat(p, ix, iy))),
                    at(b2, x, 0, 0) + ssum((ix, iy, iz), lambda i, j, k: at(w2, x, i + ix * j + ix * iy * k, 0) * A('X', i, j, k))], 'first output uses the parameters it leaves behind')
        except Unsupported as e: R.add('first output', 'undecided', str(e))
    R = Run(c, h, 'drv::connected_backward', pos[:4] + [B - 1 - idx],
            dict(no=no, X0=mat('X0', (ax, ay, az)), W=W, b=bb, X=mat('X', (ax, ay, az)), Z=mat('Z', (no, 1, 1)), G=mat('G', (no, 1, 1)), B=B, idx=idx, lr=lr, last=last),
            'src/Layers/ConnectedLayer.cpp ConnectedLayer::propagateBackward', 'value-flow summary of the backward pass equals the derivative')
    R.throws(ZERO, None, 'a gradient of the produced shape is accepted')
    i0, j0, k0 = map(n, ('i0', 'j0', 'k0'))
    R.matrix('W', (no, ax * ay * az, 1), None, 'weights after the update', pos=[
        ('every weight moved by lr times dL/dW', [no - 1 - X0, ax - 1 - i0, ay - 1 - j0, az - 1 - k0], (X0, i0 + ax * j0 + ax * ay * k0, ZERO),
         A('W', X0, i0 + ax * j0 + ax * ay * k0, 0) - P(lr) * A('G', X0, 0, 0) * A('X', i0, j0, k0))])
    R.matrix('b', (no, 1, 1), lambda x, y, q: A('b', x, 0, 0) - P(lr) * A('G', x, 0, 0), 'biases after the update')
    R.matrix(None, (ZERO, ZERO, ZERO), None, 'first layer returns an empty matrix', cond=last)
    R.matrix(None, (ax, ay, az), lambda x, y, q: ssum((no,), lambda i: A('W', i, x + ax * y + ax * ay * q, 0) * A('G', i, 0, 0)), 'input gradient', cond=1 - P(last))
