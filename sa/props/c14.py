"""Convolution layer, backward direction (gradients observed through one batch update with learning rate lr)."""
from .common import *
def run(c):
    h = H(c, ['kernel.cpp', 'src/Layers/Kernel.cpp'])
    fx, fy, fz, nf, s, ox, oy, rx, ry, B, idx = map(n, ('fx', 'fy', 'fz', 'nf', 's', 'ox', 'oy', 'rx', 'ry', 'B', 'idx'))
    lr = r('lr'); last = b('last')
    ix, iy = fx + (ox - 1) * s + rx, fy + (oy - 1) * s + ry
    R = Run(c, h, 'drv::kernel_backward', [fx - 1, fy - 1, fz - 1, nf - 1, s - 1, ox - 1, oy - 1, s - 1 - rx, s - 1 - ry, B - 1 - idx],
            dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), b=mat('b', (nf, 1, 1)), X=mat('X', (ix, iy, fz)),
                 Z=mat('Z', (ox, oy, nf)), G=mat('G', (ox, oy, nf)), idx=idx, B=B, lr=lr, last=last),
            'src/Layers/Kernel.cpp Kernel::propagateBackward', 'value-flow summary of the backward pass equals the derivative of the correlation formula', limit=400)
    R.throws(ZERO, None, 'a gradient of the produced shape is accepted')
    G = lambda *a: app('G', a)
    f0, k0 = n('f0'), n('k0')
    R.matrix('W', (fx, fy, fz * nf), None, 'weights after the update', pos=[
        ('every weight moved by lr times dL/dW', [nf - 1 - f0, fz - 1 - k0, fx - 1 - X0, fy - 1 - Y0], (X0, Y0, f0 * fz + k0),
         app('W', [X0, Y0, f0 * fz + k0]) - P(lr) * ssum((ox, oy), lambda i, j: app('X', [i * s + X0, j * s + Y0, k0]) * G(i, j, f0)))])
    R.matrix('b', (nf, 1, 1), lambda x, y, q: app('b', [x, 0, 0]) - P(lr) * ssum((ox, oy), lambda i, j: G(i, j, x)), 'biases after the update')
    R.matrix(None, (ZERO, ZERO, ZERO), None, 'first layer returns an empty matrix', cond=last)
    def dx(x, y, k):
        # every output whose window contains (x,y)
        def t(i, j, f):
            u, v = x - i * s, y - j * s
            return ge0(u) * lt(u, fx) * ge0(v) * lt(v, fy) * G(i, j, f) * app('W', [u, v, f * fz + k])
        return ssum((ox, oy, nf), t)
    R.matrix(None, (ix, iy, fz), dx, 'input gradient', cond=1 - P(last))
