"""Input checks of the layers: refusal conditions, and nothing changed by a refused call."""
from .common import *
EXC = 'my_cnn::ModelLayerException'
def run(c):
    A = lambda nm, *a: app(nm, a)
    ix, iy, iz, idx, B = map(n, 'ix iy iz idx B'.split())
    X = mat('X', (ix, iy, iz))
    RULE = 'value-flow summary of refusal: condition and state left behind'
    def kernel(c):
        h = H(c, ['kernel.cpp', 'src/Layers/Kernel.cpp'])
        fx, fy, fz, nf, s = map(n, ('fx', 'fy', 'fz', 'nf', 's'))
        R = Run(c, h, 'drv::kernel_refuse', [fx - 1, fy - 1, fz - 1, nf - 1, s - 1],
                dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), b=mat('b', (nf, 1, 1)), X=X), 'src/Layers/Kernel.cpp Kernel::propagateForward', RULE)
        ok = AND(eq(iz, fz), ge(ix, fx), ge(iy, fy))
        R.throws(ZERO, None, 'no other exception')
        R.scalar(None, 1 - ok, 'refused exactly when depth or size does not fit')
        R.matrix('W2', (fx, fy, fz * nf), lambda x, y, q: A('W', x, y, q), 'weights after a refusal')
        R.matrix('b2', (nf, 1, 1), lambda x, y, q: A('b', x, y, q), 'biases after a refusal')
    def connected(c):
        h = H(c, ['connected.cpp', 'src/Layers/ConnectedLayer.cpp'])
        no, ax, ay, az = map(n, ('no', 'ax', 'ay', 'az'))
        R = Run(c, h, 'drv::connected_refuse', [no - 1, ax - 1, ay - 1, az - 1], dict(no=no, X0=mat('X0', (ax, ay, az)), W=mat('W', (no, ax * ay * az, 1)), b=mat('b', (no, 1, 1)), X=X),
                'src/Layers/ConnectedLayer.cpp ConnectedLayer::propagateForward', RULE)
        R.throws(ZERO, None, 'no other exception')
        R.scalar(None, 1 - eq(ax * ay * az, ix * iy * iz), 'refused exactly when the element count differs')
        R.matrix('W2', (no, ax * ay * az, 1), lambda x, y, q: A('W', x, y, q), 'weights after a refusal')
        R.matrix('b2', (no, 1, 1), lambda x, y, q: A('b', x, y, q), 'biases after a refusal')
    def soft(c):
        h = H(c, ['softmax.cpp', 'src/Layers/Softmax.cpp'])
        nl = n('nl')
        R = Run(c, h, 'drv::softmax_refuse', [nl - 1], dict(nl=nl, X=X), 'src/Layers/Softmax.cpp Softmax::propagateForward', RULE)
        R.throws(ZERO, None, 'no other exception')
        vec = OR(AND(eq(iy, 1), eq(iz, 1)), AND(eq(ix, 1), eq(iz, 1)))
        R.scalar(None, 1 - vec * eq(ix * iy * iz, nl), 'refused exactly when it is not a vector of label-count elements')
    jobs = [kernel, connected, soft]
    for K, kind in (('MAX', 'max'), ('MIN', 'min'), ('AVG', None)):
        def pool(c, K=K):
            h = H(c, ['pooling.cpp', 'src/Layers/Pooling.cpp'])
            px, py, sx, sy = map(n, ('px', 'py', 'sx', 'sy'))
            R = Run(c, h, 'drv::pool_refuse_' + K, [px - 1, py - 1, sx - 1, sy - 1, B - 1 - idx], dict(px=px, py=py, sx=sx, sy=sy, B=B, X=X, idx=idx), 'src/Layers/Pooling.cpp Pooling::propagateForward', RULE)
            R.throws(ZERO, None, 'no other exception')
            R.scalar(None, 1 - ge(ix, px) * ge(iy, py), 'refused exactly when the input is smaller than the window')
        jobs.append(pool)
        if kind:
            def after(c, K=K, kind=kind):
                h = H(c, ['pooling.cpp', 'src/Layers/Pooling.cpp'])
                px, py, sx, sy, ox, oy, iz, rx, ry = map(n, 'px py sx sy ox oy iz rx ry'.split())
                d = (px + (ox - 1) * sx + rx, py + (oy - 1) * sy + ry, iz); od = (ox, oy, iz)
                bx, by, bz = map(n, ('bx', 'by', 'bz'))
                R = Run(c, h, 'drv::pool_after_' + K, [px - 1, py - 1, sx - 1, sy - 1, ox - 1, oy - 1, iz - 1, sx - 1 - rx, sy - 1 - ry, px - 1 - bx, B - 1 - idx],
                        dict(px=px, py=py, sx=sx, sy=sy, B=B, X=mat('X', d), X2=mat('X2', (bx, by, bz)), Xb=mat('X', d), Z=mat('Z', od), G=mat('G', od), idx=idx, last=b('last')),
                        'src/Layers/Pooling.cpp Pooling::propagateForward', RULE)
                R.throws(ZERO, None, 'no other exception')
                R.scalar('refused', ONE, 'the smaller input is refused')
                def g(x, y, q):
                    def t(i, j):
                        u, v = fresh('u', 2), fresh('v', 2)
                        e = [best([u, v], [P(px), P(py)], A('X', i * sx + P(u), j * sy + P(v), q), kind, k) for k in (0, 1)]
                        return A('G', i, j, q) * eq(x, i * sx + e[0]) * eq(y, j * sy + e[1])
                    return ssum((ox, oy), t)
                R.matrix(None, d, g, 'gradient routing after a refusal')
            jobs.append(after)
    par(c, jobs)
