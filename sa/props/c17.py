"""Pooling layer."""
from .common import *
def run(c):
    h = H(c, ['pooling.cpp', 'src/Layers/Pooling.cpp'])
    px, py, sx, sy, ox, oy, iz, rx, ry, B, idx, idx2 = map(n, 'px py sx sy ox oy iz rx ry B idx idx2'.split())
    last = b('last')
    A = lambda nm, *a: app(nm, a)
    ix, iy = px + (ox - 1) * sx + rx, py + (oy - 1) * sy + ry
    base = [px - 1, py - 1, sx - 1, sy - 1, ox - 1, oy - 1, iz - 1, sx - 1 - rx, sy - 1 - ry, B - 1 - idx, B - 1 - idx2]
    d = (ix, iy, iz); od = (ox, oy, iz)
    def ext(kind, nm, x, y, q):
        """coordinates (in the input) of the extreme element of the window of output (x,y,q)"""
        u, v = fresh('u', 2), fresh('v', 2)
        f = A(nm, x * sx + P(u), y * sy + P(v), q)
        return [best([u, v], [P(px), P(py)], f, kind, i) for i in (0, 1)]
    def fwd(c, k, kind):
        R = Run(c, h, 'drv::pool_fwd_' + k, base, dict(px=px, py=py, sx=sx, sy=sy, B=B, X=mat('X', d), idx=idx), 'src/Layers/Pooling.cpp Pooling::propagateForward',
                'value-flow summary of the layer equals the window reduction', tag=k + ' forward')
        R.throws(ZERO, None, 'an input at least as large as the window is accepted')
        if kind:
            def f(x, y, q):
                e = ext(kind, 'X', x, y, q)
                return A('X', x * sx + e[0], y * sy + e[1], q)
        else:
            f = lambda x, y, q: ssum((px, py), lambda i, j: A('X', x * sx + i, y * sy + j, q)) * inv(px * py)
        R.matrix(None, od, f, 'output')
    def bwd(c, k, kind):
        # backward: an earlier pass of the same slot, another slot in between
        R = Run(c, h, 'drv::pool_bwd_' + k, base, dict(px=px, py=py, sx=sx, sy=sy, B=B, X=mat('X', d), X2=mat('X2', d), X3=mat('X3', d), Xb=mat('X', d), Z=mat('Z', od), G=mat('G', od), idx=idx, idx2=idx2, last=last),
                'src/Layers/Pooling.cpp Pooling::propagateBackward', 'value-flow summary of the backward pass routes every output gradient to the elements it came from', tag=k + ' backward')
        other = 1 - eq(idx, idx2)
        R.throws(ZERO, None, 'a gradient of the produced shape is accepted')
        if kind:
            def g(x, y, q):
                def t(i, j):
                    e = ext(kind, 'X', i, j, q)
                    return A('G', i, j, q) * eq(x, i * sx + e[0]) * eq(y, j * sy + e[1])
                return ssum((ox, oy), t)
        else:
            def g(x, y, q):
                def t(i, j):
                    u, v = x - i * sx, y - j * sy
                    return ge0(u) * lt(u, px) * ge0(v) * lt(v, py) * A('G', i, j, q)
                return ssum((ox, oy), t) * inv(px * py)
        R.matrix(None, d, g, 'input gradient', cond=other)
    par(c, [lambda c, k=k, kind=kind, f=f: f(c, k, kind) for k, kind in (('MAX', 'max'), ('MIN', 'min'), ('AVG', None)) for f in (fwd, bwd)])
