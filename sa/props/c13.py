"""Convolution layer, forward direction."""
from .common import *
def run(c):
    h = H(c, ['kernel.cpp', 'src/Layers/Kernel.cpp'])
    fx, fy, fz, nf, s = map(n, ('fx', 'fy', 'fz', 'nf', 's'))
    ix, iy, iz = map(n, ('ix', 'iy', 'iz'))
    R = Run(c, h, 'drv::kernel_forward', [fx - 1, fy - 1, fz - 1, nf - 1, s - 1],
            dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), b=mat('b', (nf, 1, 1)), X=mat('X', (ix, iy, iz))),
            'src/Layers/Kernel.cpp Kernel::propagateForward', 'value-flow summary of the layer equals the correlation formula')
    ok = AND(eq(iz, fz), ge(ix, fx), ge(iy, fy))
    R.throws(1 - ok, 'my_cnn::ModelLayerException', 'input refused exactly when depth or size does not fit')
    R.matrix(None, (idiv(ix - fx, s) + 1, idiv(iy - fy, s) + 1, nf),
             lambda x, y, f: app('b', [f, 0, 0]) + ssum((fx, fy, fz), lambda i, j, k: app('X', [x * s + i, y * s + j, k]) * app('W', [i, j, f * fz + k])), 'output', cond=ok)
    R.matrix('W2', (fx, fy, fz * nf), lambda x, y, q: app('W', [x, y, q]), 'weights unchanged', cond=ok)
    R.matrix('b2', (nf, 1, 1), lambda x, y, q: app('b', [x, y, q]), 'biases unchanged', cond=ok)
