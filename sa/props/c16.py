"""Activation layer."""
from .common import *
def run(c):
    h = H(c, ['activation.cpp', 'src/Layers/Activation.cpp'])
    ix, iy, iz, idx = map(n, 'ix iy iz idx'.split()); last = b('last')
    A = lambda nm, *a: app(nm, a)
    tenth = Fraction(1, 10)
    sg = lambda v: inv(1 + fn('exp', -P(v)))
    th = lambda v: fn('tanh', P(v))
    spec = {
        'RELU': (lambda v: ite(gt(v, 0), v, 0), lambda v: gt(v, 0)),
        'SIGMOID': (sg, lambda v: sg(v) * (1 - sg(v))),
        'LINEAR': (lambda v: v, lambda v: ONE),
        'TANGENT': (th, lambda v: 1 - th(v) * th(v)),
        'LEAKY_RELU': (lambda v: ite(gt(v, 0), v, P(v) * tenth), lambda v: ite(gt(v, 0), ONE, P(tenth))),
    }
    d = (ix, iy, iz)
    for i, (k, (f, g)) in enumerate(spec.items()):
        R = Run(c, h, 'drv::act_fwd_' + k, [], dict(X=mat('X', d)), 'src/Layers/Activation.cpp Activation::propagateForward', 'value-flow summary of the layer equals the activation function', tag=k + ' forward')
        R.throws(ZERO, None, 'every input is accepted')
        R.matrix(None, d, lambda x, y, q: f(A('X', x, y, q)), 'output')
        R = Run(c, h, 'drv::act_bwd_' + k, [], dict(X=mat('X', d), Z=mat('Z', d), G=mat('G', d)), 'src/Layers/Activation.cpp Activation::propagateBackward', 'value-flow summary equals gradient times the derivative at the forward input', tag=k + ' backward')
        R.throws(ZERO, None, 'every gradient of that shape is accepted')
        R.matrix(None, d, lambda x, y, q: A('G', x, y, q) * g(A('X', x, y, q)), 'input gradient')
        R = Run(c, h, 'drv::act_round_' + k, [], {}, 'include/cnn_from_scratch/Layers/Activation.h toString/fromString', 'name and kind are inverse', tag=k + ' name')
        R.throws(ZERO, None, 'known name'); R.scalar(None, P(i), 'kind of its own name')
    kk = z('k')
    R = Run(c, h, 'drv::act_name', [kk + 2**31, 2**31 - 1 - kk], dict(k=kk), 'include/cnn_from_scratch/Layers/Activation.h toString', 'unknown kinds are refused')
    R.throws(1 - ge(kk, 0) * lt(kk, 5), None, 'exactly the kinds outside the list are refused')
