"""Three-coordinate, index-triple and flat addressing, the reported flat index, list order and iteration agree."""
from .raw import *
def run(c):
    W = 'src/SimpleMatrix.tpp '
    RULE = 'value-flow summary over the stored vector: every way of addressing position (x,y,z) reaches the stored element x + y*X + z*X*Y'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split())); p = tuple(map(n, 'px py pz'.split()))
    i = n('i'); s = r('s'); k = n('k')
    ins = inside(p, d)
    fl = flat(p, d)
    mA = rmat('A', d)
    A = lambda q: app('A', [q])
    xyz = dict(x=p[0], y=p[1], z=p[2])
    def part1(c):
        h = H(c, ['storage.cpp'])
        def go(ent, given, facts): 
            R = Raw(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE); R.throws(ZERO, None, 'accepted'); return R
        R = go('a_index', dict(xyz, A=mA), ins); R.scalar(None, fl, 'flat index')
        R = go('a_indexd', dict(A=mA, p=D3(p)), ins); R.scalar(None, fl, 'flat index')
        p0 = (p[0], p[1], ZERO); f0 = flat(p0, d); ins0 = inside(p0, d)
        R = go('a_index2', dict(xyz, A=mA), ins0); R.scalar(None, f0, 'flat index')
        for ent in ('a_read', 'a_get'):
            R = go(ent, dict(xyz, A=mA), ins); R.scalar(None, A(fl), 'element')
            R = go(ent + '2', dict(xyz, A=mA), ins0); R.scalar(None, A(f0), 'element')
            R = go(ent + 'd', dict(A=mA, p=D3(p)), ins); R.scalar(None, A(fl), 'element')
            R = go(ent + 'f', dict(A=mA, i=i), [ax * ay * az - 1 - i]); R.scalar(None, A(i), 'element')
        wr = lambda f: (lambda q: ite(eq(q, f), s, A(q)))
        R = go('a_set', dict(xyz, A=mA, s=s), ins); R.store('A', d, wr(fl), 'after writing')
        R = go('a_set2', dict(xyz, A=mA, s=s), ins0); R.store('A', d, wr(f0), 'after writing')
        R = go('a_setd', dict(A=mA, p=D3(p), s=s), ins); R.store('A', d, wr(fl), 'after writing')
        R = go('a_setf', dict(A=mA, i=i, s=s), [ax * ay * az - 1 - i]); R.store('A', d, wr(i), 'after writing')
        R = go('d_flat', dict(a=D3(d), p=D3(p)), ins); R.scalar(None, fl, 'flat index')
        a, b_, cc, dd = map(n, 'a b c d'.split())
        R = go('e_flat', dict(a=a, b=b_, c=cc, d=dd), [a - 1 - cc, b_ - 1 - dd]); R.scalar(None, cc + dd * a, 'flat index')
        vec = VVec(1, ax * ay * az, app('L', [V1]), None)
        R = go('m_vector', dict(v=vec, R=rmat('B', d)), ()); R.store('R', d, lambda q: app('L', [q]), 'flat list')
    def part3(c):
        # the same through the element contract: list order against three-coordinate reads
        h = H(c, ['storage.cpp'])
        vec = VVec(1, ax * ay * az, app('L', [V1]), None)
        for ent, g, o in (('m_list', dict(d=D3(d), v=vec), None), ('m_entries', dict(R=mat('B', d), v=vec), 'R')):
            R = Run(c, h, 'drv::' + ent, [], g, W + ent, 'list entries fill the matrix row by row, layer by layer')
            R.throws(ZERO, None, 'accepted')
            R.matrix(o, d, lambda x, y, q: app('L', [(q * ax + x) * ay + y]), 'list order')
    par(c, [part1, part3])
