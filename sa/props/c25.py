"""Round trip of every layer through its text."""
from .serial import *
RULE = 'the reader is interpreted over the symbolic text the writer produces; what it restores equals what was written'
def run(c):
    h = H(c, ['serial.cpp'] + SRC)
    fx, fy, fz, nf, s, ox, oy, rx, ry, m, ix, iy, iz = map(n, 'fx fy fz nf s ox oy rx ry m ix iy iz'.split())
    px, py, sx, sy = map(n, 'px py sx sy'.split()); lr = r('lr')
    A = lambda nm, *a: app(nm, a)
    def base(c, ent, facts, given, where, **kw):
        R = Run(c, h, 'drv::' + ent, facts, given, where, RULE, setup=Text().setup, skip=('vector', 'matrix', 'array', 'optional', 'division'), **kw)
        return R
    def ok(R):
        R.throws(ZERO, None, 'what was written is accepted')
        R.scalar(None, ONE, 'reading back succeeds')
        R.scalar('rest', P(15), 'exactly what was written is consumed')
    def matrix(c):
        R = base(c, 'matrix', [], dict(a=mat('W', (fx, fy, fz)), b=mat('V', (ix, iy, iz))), 'src/SimpleMatrix.tpp serialize/deserialize')
        ok(R); R.matrix('b', (fx, fy, fz), lambda x, y, q: pr(A('W', x, y, q)), 'matrix')
    ix_, iy_ = fx + (ox - 1) * s + rx, fy + (oy - 1) * s + ry
    kf = [fx - 1, fy - 1, fz - 1, nf - 1, s - 1]
    kff = kf + [ox - 1, oy - 1, s - 1 - rx, s - 1 - ry]
    kg = dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), bi=mat('b', (nf, 1, 1)))
    W_, b_ = (lambda *a: pr(A('W', *a))), (lambda *a: pr(A('b', *a)))
    KW = 'src/Layers/Kernel.cpp serialize/deserialize'
    def kernel(c):
        R = base(c, 'kernel', kf, dict(kg), KW); ok(R); parts(R, (fx, fy, fz * nf), (nf, 1, 1))
    def parts(R, wd, bd):
        """public parameters of the restored layer"""
        for f, d in (('weights', wd), ('biases', bd)):
            if R.err: continue
            try: v, F = R.result('b'); v = v.f[f]
            except (Unsupported, KeyError, AttributeError) as ex: R.add(f, 'undecided', str(ex)); continue
            if not isinstance(v, VMat): R.add(f, 'undecided', 'not a matrix value'); continue
            for q, a, w in zip('xyz', v.dim, d): R.eq('%s: size %s' % (f, q), a, w, F)
            G = F; sb = {}
            for mm, w in zip(MB, d):
                if P(w).const() == 1: sb[mm] = ZERO
                else: G = G.add_ge(P(mm), P(w) - 1 - P(mm))
            R.eq('%s: every element' % f, subst(v.body, sb), subst(pr(app({'weights': 'W', 'biases': 'b'}[f], [X0, Y0, Z0])), sb), G)
    def kernel_use(c):
        R = base(c, 'kernel_use', kff, dict(kg, X=mat('X', (ix_, iy_, fz))), KW)
        R.throws(ZERO, None, 'the restored layer accepts what the saved one accepts')
        R.matrix(None, (ox, oy, nf), lambda x, y, f: b_(f, 0, 0) + ssum((fx, fy, fz), lambda i, j, k: A('X', x * s + i, y * s + j, k) * W_(i, j, f * fz + k)), 'output of the restored layer')
    def kernel_bwd(c):
        R = base(c, 'kernel_use_bwd', kff, dict(kg, X=mat('X', (ix_, iy_, fz)), Z=mat('Z', (ox, oy, nf)), G=mat('G', (ox, oy, nf)), lr=lr), KW, limit=400)
        R.throws(ZERO, None, 'the restored layer accepts the gradients the saved one accepts')
        def dx(x, y, k):
            def t(i, j, f):
                u, v = x - i * s, y - j * s
                return ge0(u) * lt(u, fx) * ge0(v) * lt(v, fy) * A('G', i, j, f) * W_(u, v, f * fz + k)
            return ssum((ox, oy, nf), t)
        R.matrix(None, (ix_, iy_, fz), dx, 'input gradient of the restored layer')
        R.matrix('b2', (nf, 1, 1), lambda x, y, q: b_(x, 0, 0) - P(lr) * ssum((ox, oy), lambda i, j: A('G', i, j, x)), 'biases after an update')
    N = ix * iy * iz
    cf = [m - 1, ix - 1, iy - 1, iz - 1]
    cg = dict(X0=mat('X0', (ix, iy, iz)), m=m, W=mat('W', (m, N, 1)), bi=mat('b', (m, 1, 1)))
    CW = 'src/Layers/ConnectedLayer.cpp serialize/deserialize'
    def connected(c):
        R = base(c, 'connected', cf, dict(cg), CW); ok(R); parts(R, (m, N, 1), (m, 1, 1))
    def fresh_connected(c):
        ok(base(c, 'fresh_connected', [m - 1], dict(m=m), CW, tag='not used yet'))
        R = base(c, 'fresh_use', [m - 1, ix - 1, iy - 1, iz - 1], dict(m=m, X=mat('X', (ix, iy, iz))), CW)
        R.throws(ZERO, None, 'a layer saved before its first input takes its first input after loading')
        R.matrix(None, (m, 1, 1), None, 'output of the restored layer')
    def flat(i): return A('X', imod(i, ix), imod(idiv(i, ix), iy), idiv(i, ix * iy))
    def connected_use(c):
        R = base(c, 'connected_use', cf, dict(cg, X=mat('X', (ix, iy, iz))), CW)
        R.throws(ZERO, None, 'the restored layer accepts what the saved one accepts')
        R.matrix(None, (m, 1, 1), lambda x, y, q: [b_(x, 0, 0) + ssum((ix, iy, iz), lambda i, j, k: W_(x, i + ix * (j + iy * k), 0) * A('X', i, j, k)), b_(x, 0, 0) + ssum((N,), lambda i: W_(x, i, 0) * flat(i))], 'output of the restored layer')
    def connected_bwd(c):
        R = base(c, 'connected_use_bwd', cf, dict(cg, X=mat('X', (ix, iy, iz)), Z=mat('Z', (m, 1, 1)), G=mat('G', (m, 1, 1)), lr=lr), CW)
        R.throws(ZERO, None, 'the restored layer accepts the gradients the saved one accepts')
        R.matrix(None, (ix, iy, iz), lambda x, y, q: ssum((m,), lambda i: W_(i, x + ix * (y + iy * q), 0) * A('G', i, 0, 0)), 'input gradient of the restored layer')
        R.matrix('b2', (m, 1, 1), lambda x, y, q: b_(x, 0, 0) - P(lr) * A('G', x, 0, 0), 'biases after an update')
    qx, qy = px + (ox - 1) * sx + rx, py + (oy - 1) * sy + ry
    pf = [px - 1, py - 1, sx - 1, sy - 1, ox - 1, oy - 1, iz - 1, sx - 1 - rx, sy - 1 - ry]
    pg = dict(px=px, py=py, sx=sx, sy=sy)
    def pooling(c, k, kind):
        R = base(c, 'pooling_' + k, pf, dict(pg), 'src/Layers/Pooling.cpp serialize/deserialize'); ok(R)
        R = base(c, 'pooling_use_' + k, pf, dict(pg, X=mat('X', (qx, qy, iz))), 'src/Layers/Pooling.cpp serialize/deserialize')
        R.throws(ZERO, None, 'the restored layer accepts what the saved one accepts')
        def f(x, y, q):
            if not kind: return ssum((px, py), lambda i, j: A('X', x * sx + i, y * sy + j, q)) * inv(px * py)
            u, v = fresh('u', 2), fresh('v', 2)
            g = A('X', x * sx + P(u), y * sy + P(v), q)
            e = [best([u, v], [P(px), P(py)], g, kind, i) for i in (0, 1)]
            return A('X', x * sx + e[0], y * sy + e[1], q)
        R.matrix(None, (ox, oy, iz), f, 'output of the restored layer')
    tenth = Fraction(1, 10)
    sg = lambda v: inv(1 + fn('exp', -P(v))); th = lambda v: fn('tanh', P(v))
    acts = {'RELU': (lambda v: ite(gt(v, 0), v, 0), lambda v: gt(v, 0)), 'SIGMOID': (sg, lambda v: sg(v) * (1 - sg(v))), 'LINEAR': (lambda v: v, lambda v: ONE),
            'TANGENT': (th, lambda v: 1 - th(v) * th(v)), 'LEAKY_RELU': (lambda v: ite(gt(v, 0), v, P(v) * tenth), lambda v: ite(gt(v, 0), ONE, P(tenth)))}
    def activation(c, k):
        f, g = acts[k]; d = (ix, iy, iz)
        R = base(c, 'activation_' + k, [], {}, 'src/Layers/Activation.cpp serialize/deserialize'); ok(R)
        R = base(c, 'activation_use_' + k, [], dict(X=mat('X', d), Z=mat('Z', d), G=mat('G', d)), 'src/Layers/Activation.cpp serialize/deserialize')
        R.throws(ZERO, None, 'every input is accepted')
        R.matrix(None, d, lambda x, y, q: f(A('X', x, y, q)), 'output of the restored layer')
        R.matrix('dX', d, lambda x, y, q: A('G', x, y, q) * g(A('X', x, y, q)), 'input gradient of the restored layer')
    def softmax(c):
        ok(base(c, 'softmax', [], dict(m=m), 'src/Layers/Softmax.cpp serialize/deserialize'))
    jobs = [matrix, kernel, kernel_use, kernel_bwd, connected, connected_use, connected_bwd, fresh_connected, softmax]
    jobs += [lambda c, k=k, q=q: pooling(c, k, q) for k, q in (('MAX', 'max'), ('MIN', 'min'), ('AVG', None))] + [lambda c, k=k: activation(c, k) for k in acts]
    par(c, jobs)
