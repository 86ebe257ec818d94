"""Batch updates of the trainable layers."""
from .common import *
def vec(h, entry, name, cnt, dims):
    """std::vector<SimpleMatrix<double>> of cnt matrices of one shape"""
    v = BV(1)
    ps, tu = h.params(entry)
    ty = dict(ps)[name]
    while ty['k'] in ('ref', 'rref'): ty = h.p.type(tu, ty['to'])
    return VVec(1, P(cnt), VMat(DM, tuple(P(d) for d in dims), app(name, [P(v), X0, Y0, Z0])), (tu, ty['ta'][0]['t']))
def run(c):
    A = lambda nm, *a: app(nm, a)
    m, B, B2, idx, idx2 = map(n, 'm B B2 idx idx2'.split())
    lr, lr2, lr3 = map(r, ('lr', 'lr2', 'lr3'))
    RULE = 'value-flow summary of the update equals learning rate times the mean of the gradients stored in this batch'
    class L: pass
    K = L()
    fx, fy, fz, nf, s, ox, oy, rx, ry = map(n, 'fx fy fz nf s ox oy rx ry'.split())
    K.name = 'kernel'; K.files = ['kernel.cpp', 'src/Layers/Kernel.cpp']; K.where = 'src/Layers/Kernel.cpp Kernel::applyBatch'
    K.args = dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), b=mat('b', (nf, 1, 1)), Z=mat('Z', (ox, oy, nf)))
    K.facts = [fx - 1, fy - 1, fz - 1, nf - 1, s - 1, ox - 1, oy - 1, s - 1 - rx, s - 1 - ry]
    K.xd = (fx + (ox - 1) * s + rx, fy + (oy - 1) * s + ry, fz); K.gd = (ox, oy, nf); K.wd = (fx, fy, fz * nf); K.bd = (nf, 1, 1)
    f0, k0 = n('f0'), n('k0')
    K.wpos = ([nf - 1 - f0, fz - 1 - k0, fx - 1 - X0, fy - 1 - Y0], (X0, Y0, f0 * fz + k0))
    K.gw = lambda X, G: ssum((ox, oy), lambda i, j: X(i * s + X0, j * s + Y0, P(k0)) * G(i, j, P(f0)))
    K.gb = lambda G: ssum((ox, oy), lambda i, j: G(i, j, X0))
    C = L()
    no, ax, ay, az = map(n, 'no ax ay az'.split()); i0, j0, q0 = map(n, ('i0', 'j0', 'q0'))
    C.name = 'connected'; C.files = ['connected.cpp', 'src/Layers/ConnectedLayer.cpp']; C.where = 'src/Layers/ConnectedLayer.cpp ConnectedLayer::applyBatch'
    C.args = dict(no=no, X0=mat('X0', (ax, ay, az)), W=mat('W', (no, ax * ay * az, 1)), b=mat('b', (no, 1, 1)), Z=mat('Z', (no, 1, 1)))
    C.facts = [no - 1, ax - 1, ay - 1, az - 1]
    C.xd = (ax, ay, az); C.gd = (no, 1, 1); C.wd = (no, ax * ay * az, 1); C.bd = (no, 1, 1)
    C.wpos = ([no - 1 - X0, ax - 1 - i0, ay - 1 - j0, az - 1 - q0], (X0, i0 + ax * j0 + ax * ay * q0, ZERO))
    C.gw = lambda X, G: G(X0, ZERO, ZERO) * X(P(i0), P(j0), P(q0))
    C.gb = lambda G: G(X0, ZERO, ZERO)
    def check(R, L, upd_w, upd_b, cond=None):
        R.throws(ZERO, None, 'accepted')
        w0 = A('W', *L.wpos[1])
        R.matrix('W', L.wd, None, 'weights after the update', pos=[('every weight', L.wpos[0], L.wpos[1], w0 - upd_w)], cond=cond)
        R.matrix('b', L.bd, lambda x, y, q: A('b', x, 0, 0) - upd_b, 'biases after the update', cond=cond)
    def batch(c, L):
        h = H(c, L.files)
        E = 'drv::%s_batch' % L.name
        R = Run(c, h, E, L.facts + [B - m], dict(L.args, Xs=vec(h, E, 'Xs', m, L.xd), Gs=vec(h, E, 'Gs', m, L.gd), B=B, lr=lr), L.where, RULE)
        gw = ssum((m,), lambda i: L.gw(lambda *p: A('Xs', i, *p), lambda *p: A('Gs', i, *p)))
        gb = ssum((m,), lambda i: L.gb(lambda *p: A('Gs', i, *p)))
        check(R, L, P(lr) * gw * inv(m), P(lr) * gb * inv(m), ge(m, 1))
        R.matrix('W', L.wd, lambda x, y, q: A('W', x, y, q), 'weights after an update without samples', cond=eq(m, 0))
        R.matrix('b', L.bd, lambda x, y, q: A('b', x, y, q), 'biases after an update without samples', cond=eq(m, 0))
    def twice(c, L):
        h = H(c, L.files)
        E = 'drv::%s_twice' % L.name
        R = Run(c, h, E, L.facts + [B - m, B - 1 - idx], dict(L.args, Xs=vec(h, E, 'Xs', m, L.xd), Gs=vec(h, E, 'Gs', m, L.gd), X=mat('X', L.xd), G=mat('G', L.gd), idx=idx, B=B, lr=lr, lr2=lr2, lr3=lr3), L.where, RULE)
        X = lambda *p: A('X', *p); G = lambda *p: A('G', *p)
        check(R, L, P(lr2) * L.gw(X, G), P(lr2) * L.gb(G))
    def same(c, L):
        h = H(c, L.files)
        R = Run(c, h, 'drv::%s_same_slot' % L.name, L.facts + [B - 1 - idx, B - 1 - idx2], dict(L.args, X=mat('X', L.xd), G=mat('G', L.gd), X2=mat('X2', L.xd), G2=mat('G2', L.gd), idx=idx, idx2=idx2, B=B, lr=lr), L.where, RULE)
        X = lambda *p: A('X', *p); G = lambda *p: A('G', *p); X2 = lambda *p: A('X2', *p); G2 = lambda *p: A('G2', *p)
        e = 1 - eq(idx, idx2)
        check(R, L, P(lr) * (L.gw(X, G) + L.gw(X2, G2)) * Fraction(1, 2), P(lr) * (L.gb(G) + L.gb(G2)) * Fraction(1, 2), e)
    def reset(c, L):
        h = H(c, L.files)
        R = Run(c, h, 'drv::%s_reset' % L.name, L.facts + [B - 1 - idx], dict(L.args, X=mat('X', L.xd), G=mat('G', L.gd), idx=idx, B=B, B2=B2, lr=lr), L.where, RULE)
        check(R, L, ZERO, ZERO)
    par(c, [lambda c, f=f, L=L: f(c, L) for L in (C, K) for f in (batch, twice, same, reset)])
