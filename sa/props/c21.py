"""Layer chaining: forward and backward passes over an unbounded number of opaque layers."""
from .model import *
def run(c):
    N, bi, lab, K = n('N'), n('b'), z('label'), n('K')
    h = H(c, ['model.cpp'])
    RULE = 'value-flow summary over N opaque layers: each is called once with exactly the values the pass must give it'
    def fwd(c, ent, xt):
        L = Layers(N, bi if ent != 'forward0' else ZERO)
        R = Mrun(c, h, ent, L, dict(X=act(0, 'my_cnn::SimpleMatrix<%s>' % xt), b=bi), [N - 1], RULE, K, skip=('matrix position',))
        R.counters(L, fwd=1, bwd=0, asg=0)
        R.record(L)
    def bwd(c, ent):
        L = Layers(N, bi)
        R = Mrun(c, h, ent, L, dict(b=bi, label=lab), [N - 1], RULE, K, skip=('matrix position',), recorded='r')
        R.counters(L, fwd=0, bwd=1)
        R.counters(L, pos=L.N - 1, asg=1)
    par(c, [lambda c: fwd(c, 'forward', 'double'), lambda c: fwd(c, 'forwardf', 'float'), lambda c: fwd(c, 'forward0', 'double'), lambda c: bwd(c, 'backward'), lambda c: bwd(c, 'backwardf')])
