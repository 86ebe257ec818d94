"""Matrix product, dot product and convolution."""
from .common import *
from .c08 import dim3, IM, A3
def dim2(a, b_): return VObj('my_cnn::Dim<2>', dict(x=P(a), y=P(b_), z=ZERO))
def run(c):
    W = 'include/cnn_from_scratch/Matrix/MatrixMath.h '
    RULE = 'value-flow summary at a symbolic position equals the defining sum'
    ax, ay, az, bx, by, k = map(n, 'ax ay az bx by k'.split())
    t = tx, ty, tz = tuple(map(n, 'tx ty tz'.split())); u = tuple(map(n, 'ux uy uz'.split()))
    px, py, pz = map(n, 'px py pz'.split()); s = r('s')
    def fnm(nm, i=False): return lambda x, y, q: A3(nm, x, y, q, i)
    def prod(c):
        h = H(c, ['products.cpp'])
        dA = (ax, k, az); dB = (k, by, az); dR = (ax, by, az)
        def go(ent, given, a, b_, **kw):
            R = Run(c, h, 'drv::' + ent, [], given, W + ent, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.matrix(None, dR, lambda x, y, q: ssum((k,), lambda i: a(x, i, q) * b_(i, y, q)), 'product')
        go('product', dict(A=mat('A', dA), B=mat('B', dB)), fnm('A'), fnm('B'))
        go('product_im', dict(A=mat('A', dA, IM, True), B=mat('B', dB)), fnm('A', True), fnm('B'))
        go('product_mi', dict(A=mat('A', dA), B=mat('B', dB, IM, True)), fnm('A'), fnm('B', True))
        go('product_ii', dict(A=mat('A', dA, IM, True), B=mat('B', dB, IM, True)), fnm('A', True), fnm('B', True))
        go('product_e', dict(A=mat('A', dA), B=mat('B', (by, k, az)), s=s), lambda x, y, q: A3('A', x, y, q) * s, lambda x, y, q: A3('B', y, x, q))
        go('product_v', dict(P=mat('P', tuple(a + b_ + g for a, b_, g in zip(dA, t, u))), at=dim3(t), size=dim3(dA), B=mat('B', dB)), lambda x, y, q: A3('P', x + tx, y + ty, q + tz), fnm('B'))
        go('product_tt', dict(A=mat('A', dA), B=mat('B', dB)), fnm('A'), fnm('B'))
        go('product_tn', dict(A=mat('A', dA), B=mat('B', dB)), fnm('A'), fnm('B'))
        go('product_named', dict(A=mat('A', dA), B=mat('B', (by, k, az)), s=s), lambda x, y, q: A3('A', x, y, q) * s, lambda x, y, q: A3('B', y, x, q))
        for ent in ('product_at', 'product_xyz'):
            R = Run(c, h, 'drv::' + ent, [ax - 1 - px, by - 1 - py, az - 1 - pz], dict(A=mat('A', dA), B=mat('B', dB), p=dim3((px, py, pz))), W + ent, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.scalar(None, ssum((k,), lambda i: A3('A', px, i, pz) * A3('B', i, py, pz)), 'element')
    def dots(c):
        h = H(c, ['products.cpp'])
        col = ((k, 1, 1), lambda i: (i, ZERO, ZERO)); row = ((1, k, 1), lambda i: (ZERO, i, ZERO))
        for (dA, pA), na in ((col, 'column'), (row, 'row')):
            for (dB, pB), nb in ((col, 'column'), (row, 'row')):
                def go(ent, given, a, b_):
                    R = Run(c, h, 'drv::' + ent, [], given, W + ent, RULE, tag='%s(%s, %s)' % (ent, na, nb), limit=60)
                    R.throws(ZERO, None, 'accepted'); R.scalar(None, ssum((k,), lambda i: a(i) * b_(i)), 'dot product')
                fa = lambda i: A3('A', *pA(i)); fb = lambda i: A3('B', *pB(i)); ga = lambda i: A3('A', *pA(i), True); gb = lambda i: A3('B', *pB(i), True)
                go('dot_mm', dict(A=mat('A', dA), B=mat('B', dB)), fa, fb)
                go('dot_im', dict(A=mat('A', dA, IM, True), B=mat('B', dB)), ga, fb)
                go('dot_mi', dict(A=mat('A', dA), B=mat('B', dB, IM, True)), fa, gb)
                go('dot_ii', dict(A=mat('A', dA, IM, True), B=mat('B', dB, IM, True)), ga, gb)
                pm = mat('P', tuple(P(a) + b_ + g for a, b_, g in zip(dA, t, u)))
                go('dot_v', dict(P=pm, at=dim3(t), size=dim3(dA), B=mat('B', dB)), lambda i: A3('P', *[a + b_ for a, b_ in zip(pA(i), t)]), fb)
                go('dot_e', dict(A=mat('A', dA), B=mat('B', (dB[1], dB[0], 1)), s=s), lambda i: fa(i) * s, lambda i: A3('B', pB(i)[1], pB(i)[0], 0))
    def conv(c):
        h = H(c, ['products.cpp'])
        fx, fy, sx, sy, ox, oy, rx, ry = map(n, 'fx fy sx sy ox oy rx ry'.split())
        F = [fx - 1, fy - 1, sx - 1, sy - 1, ox - 1, oy - 1, sx - 1 - rx, sy - 1 - ry]
        dA = (fx + (ox - 1) * sx + rx, fy + (oy - 1) * sy + ry, 1); dB = (fx, fy, 1)
        st = dim2(sx, sy)
        def go(ent, given, a, b_, facts=()):
            R = Run(c, h, 'drv::' + ent, F + list(facts), given, W + ent, RULE, limit=100)
            R.throws(ZERO, None, 'accepted')
            R.matrix(None, (ox, oy, 1), lambda x, y, q: ssum((fx, fy), lambda i, j: a(x * sx + i, y * sy + j, ZERO) * b_(i, j, ZERO)), 'convolution')
        go('conv', dict(A=mat('A', dA), B=mat('B', dB), st=st), fnm('A'), fnm('B'))
        go('conv_im', dict(A=mat('A', dA, IM, True), B=mat('B', dB), st=st), fnm('A', True), fnm('B'))
        go('conv_mi', dict(A=mat('A', dA), B=mat('B', dB, IM, True), st=st), fnm('A'), fnm('B', True))
        go('conv_ii', dict(A=mat('A', dA, IM, True), B=mat('B', dB, IM, True), st=st), fnm('A', True), fnm('B', True))
        pz_, qz_, k1, j1 = map(n, 'pz qz k j'.split())
        go('conv_v', dict(P=mat('P', dA[:2] + (pz_,)), k=k1, Q=mat('Q', dB[:2] + (qz_,)), j=j1, st=st), lambda x, y, q: A3('P', x, y, k1), lambda x, y, q: A3('Q', x, y, j1), [pz_ - 1 - k1, qz_ - 1 - j1])
        go('conv_e', dict(A=mat('A', dA), B=mat('B', dB), st=st, s=s), lambda x, y, q: A3('A', x, y, q) * s, lambda x, y, q: A3('B', fx - 1 - x, fy - 1 - y, q))
        go('conv_tt', dict(A=mat('A', dA), B=mat('B', dB), st=st), fnm('A'), fnm('B'))
        go('conv_named', dict(A=mat('A', dA), B=mat('B', dB), st=st, s=s), lambda x, y, q: A3('A', x, y, q) * s, lambda x, y, q: A3('B', fx - 1 - x, fy - 1 - y, q))
        R = Run(c, h, 'drv::conv_at', F + [ox - 1 - px, oy - 1 - py], dict(A=mat('A', dA), B=mat('B', dB), st=st, p=dim3((px, py, 0))), W + 'convolve', RULE, limit=60)
        R.scalar(None, ssum((fx, fy), lambda i, j: A3('A', px * sx + i, py * sy + j, 0) * A3('B', i, j, 0)), 'element')
    par(c, [prod, dots, conv])
