"""Stored element count equals the reported shape after every constructor, conversion, copy, move, assignment, resize and reshape."""
from .raw import *
IM = 'my_cnn::SimpleMatrix<int>'
def run(c):
    W = 'src/SimpleMatrix.tpp '
    RULE = 'value-flow summary over the stored vector: reported sizes are those requested, stored count is their product'
    d = tuple(map(n, 'ax ay az'.split())); e = tuple(map(n, 'bx by bz'.split()))
    k = n('k'); s = r('s')
    vol = lambda q: q[0] * q[1] * q[2]
    A = lambda i: app('A', [i]); B = lambda i: app('B', [i])
    mA, mR = rmat('A', d), rmat('B', e)
    iA = rmat('A', d, IM, True); iR = rmat('B', e, IM, True)
    def part1(c):
        h = H(c, ['storage.cpp'])
        def go(ent, given, facts=()):
            R = Raw(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE)
            return R
        def acc(R, cond=ZERO, exc=None): R.throws(cond, exc, 'refused only when it must be')
        R = go('m_default', {}); acc(R); R.store(None, (0, 0, 0))
        for ent, val in (('m_fill', s), ('m_zero', ZERO)):
            R = go(ent, dict(d=D3(d), s=s)); acc(R); R.store(None, d, lambda i: val)
        R = go('i_zero', dict(d=D3(d))); acc(R); R.store(None, d, lambda i: ZERO)
        R = go('m_copy', dict(A=mA)); acc(R); R.store(None, d, A); R.store('A', d, A, 'source')
        R = go('m_move', dict(A=mA)); acc(R); R.store(None, d, A); moved(R, 'A')
        R = go('m_assign', dict(A=mA, R=mR)); acc(R); R.store('R', d, A); R.store('A', d, A, 'source')
        R = go('m_massign', dict(A=mA, R=mR)); acc(R); R.store('R', d, A); moved(R, 'A')
        R = go('m_other', dict(A=iA, R=mR)); acc(R); R.store('R', d, lambda i: app('A', [i], True))
        R = go('i_other', dict(A=mA, R=iR)); acc(R); R.store('R', d)
        for ent, g in (('m_resize', dict(x=d[0], y=d[1], z=d[2])), ('m_resized', dict(d=D3(d)))):
            R = go(ent, dict(g, R=mR)); acc(R); R.store('R', d, lambda i: ite(lt(i, vol(e)), B(i), ZERO))
        for ent, g in (('m_reshape', dict(x=d[0], y=d[1], z=d[2])), ('m_reshaped', dict(d=D3(d)))):
            R = go(ent, dict(g, R=mR)); acc(R, 1 - eq(vol(d), vol(e)), 'my_cnn::MatrixTransformException'); R.store('R', d, B)
        vec = VVec(1, k, A(V1), None)
        R = go('m_vector', dict(v=vec, R=mR)); acc(R, 1 - eq(k, vol(e)), 'my_cnn::MatrixSizeException'); R.store('R', e, A)
        R = go('m_size', dict(A=mA)); R.scalar(None, vol(d), 'reported element count')
        for ent in ('m_dim', 'm_dims'): R = go(ent, dict(A=mA)); R.dim(d, None, 'reported shape')
        for i in range(3): R = go('m_dimi%d' % i, dict(A=mA)); R.scalar(None, d[i], 'reported size')
    def part2(c):
        h = H(c, ['storage.cpp'])
        def go(ent, given, facts=()):
            return Raw(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE, contract='it', skip=('vector index',))
        def acc(R, cond=ZERO, exc=None): R.throws(cond, exc, 'refused only when it must be')
        vec = VVec(1, k, app('L', [V1]), None)
        R = go('m_list', dict(d=D3(d), v=vec)); acc(R, 1 - eq(k, vol(d)), 'my_cnn::MatrixSizeException'); R.store(None, d)
        R = go('m_entries', dict(R=mR, v=vec)); acc(R, 1 - eq(k, vol(e)), 'my_cnn::MatrixSizeException'); R.store('R', e)
        mB = rmat('B', d)
        R = go('m_fromint', dict(A=iA)); acc(R); R.store(None, d)
        R = go('i_from', dict(A=mA)); acc(R); R.store(None, d)
        R = go('m_fromsum', dict(A=mA, B=mB)); acc(R); R.store(None, d)
        R = go('m_fromscalar', dict(A=mA, s=s)); acc(R); R.store(None, d)
        R = go('m_fromtrans', dict(A=mA)); acc(R); R.store(None, (d[1], d[0], d[2]))
        m2 = rmat('C', (d[1], e[1], d[2]))
        R = go('m_fromprod', dict(A=mA, B=m2)); acc(R); R.store(None, (d[0], e[1], d[2]))
        R = go('m_tosum', dict(R=mR, A=mA, B=mB)); acc(R); R.store('R', d)
        R = go('m_toscalar', dict(R=mR, A=mA, s=s)); acc(R); R.store('R', d)
        R = go('m_totrans', dict(R=mR, A=mA)); acc(R); R.store('R', (d[1], d[0], d[2]))
        t = tuple(map(n, 'tx ty tz'.split())); g = tuple(map(n, 'gx gy gz'.split()))
        big = rmat('P', tuple(a + b_ + q for a, b_, q in zip(d, t, g)))
        for ent in ('m_fromview', 'm_fromcview'):
            R = go(ent, dict(A=big, t=D3(t), w=D3(d))); acc(R); R.store(None, d)
        R = go('m_toview', dict(R=mR, A=big, t=D3(t), w=D3(d))); acc(R); R.store('R', d)
        R = go('m_subcopy', dict(A=big, p=D3(t), q=D3(d))); acc(R); R.store(None, d)
        R = go('m_abs', dict(A=mA)); acc(R); R.store(None, d)
    par(c, [part1, part2])
def moved(R, name):
    """a moved-from matrix stays consistent: as many elements as it reports"""
    what = 'moved-from source'
    if R.err: return R.add(what, 'undecided', R.err)
    try:
        v, F = R.result(name)
        d = [v.f['dim_'].f[q] for q in 'xyz']; vec = v.f['values_']
        R.eq('moved-from source: stores as many elements as it reports', vec.size, d[0] * d[1] * d[2], F)
    except (Unsupported, KeyError, AttributeError) as e: R.add(what, 'undecided', str(e))
