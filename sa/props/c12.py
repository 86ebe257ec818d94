"""Definite values: coordinates of size/position objects and every scalar field of library objects right after construction."""
from .raw import *
from . import c28
OBJ = 'kernel pooling pooling2 connected connected0 connected2 activation softmax results resultsi hyper hyperi model modeli image sample reader position matrix fill filli fillb filld'.split()
def run(c):
    W = 'include/cnn_from_scratch/Matrix/dim.h '
    RULE = 'value-flow summary of the constructor/operator equals the coordinates given, zero for the others'
    a, b_, cc, dd = map(z, 'a b c d'.split())
    def dims(c):
        h = H(c, ['storage.cpp'])
        def go(ent, given, facts=()):
            R = Raw(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE); R.throws(ZERO, None, 'accepted'); return R
        for ent in ('d_none', 'd_empty', 'd_plain'): go(ent, {}).dim((0, 0, 0))
        go('d_one', dict(a=a)).dim((a, None, None)); go('d_two', dict(a=a, b=b_)).dim((a, b_, 0)); go('d_three', dict(a=a, b=b_, c=cc)).dim((a, b_, cc))
        go('d_brace2', dict(a=a, b=b_)).dim((a, b_, 0)); go('d_brace3', dict(a=a, b=b_, c=cc)).dim((a, b_, cc))
        na, nb, nc = map(n, 'a b c'.split())
        go('d_mixed', dict(a=a, b=nb, c=cc)).dim((a, nb, cc)); go('d_size', dict(a=na, b=nb, c=nc)).dim((na, nb, nc))
        go('e_none', {}).dim((0, 0, 0)); go('e_two', dict(a=a, b=b_)).dim((a, b_, 0))
        # a single integer fills every coordinate (or is the first one, the rest zero): both coordinates must be determined by it
        for ent in ('d_one', 'd_brace1', 'e_one'):
            R = go(ent, dict(a=a))
            defined(R, 'coordinates are determined', R.result()[0] if not R.err else None, allow={'a'})
        P3 = lambda s: D3([z(s + q) for q in 'xyz'])
        p, q = [z('a' + s) for s in 'xyz'], [z('b' + s) for s in 'xyz']
        for ent in ('d_copy', 'd_move'): go(ent, dict(a=P3('a'))).dim(p)
        for ent in ('d_assign', 'd_massign'): go(ent, dict(a=P3('a'), b=P3('b'))).dim(p)
        same = AND(*[eq(x, y) for x, y in zip(p, q)])
        go('d_eq', dict(a=P3('a'), b=P3('b'))).scalar(None, same, 'equal exactly when all coordinates are'); go('d_ne', dict(a=P3('a'), b=P3('b'))).scalar(None, 1 - same, 'unequal exactly when a coordinate differs')
        go('d_sum', dict(a=P3('a'), b=P3('b'))).dim([x + y for x, y in zip(p, q)]); go('d_diff', dict(a=P3('a'), b=P3('b'))).dim([x - y for x, y in zip(p, q)])
        go('e_sum', dict(a=D2(p[:2]), b=D2(q[:2]))).dim((p[0] + q[0], p[1] + q[1], 0)); go('e_diff', dict(a=D2(p[:2]), b=D2(q[:2]))).dim((p[0] - q[0], p[1] - q[1], 0))
        four = dict(a=a, b=b_, c=cc, d=dd)
        ab = dict(a=a, b=b_)
        E = lambda: D2((z('ex'), z('ey')))
        for ent in ('e_copy', 'e_move'): go(ent, dict(a=D2(p[:2]))).dim((p[0], p[1], 0))
        for ent in ('e_assign', 'e_massign'): go(ent, dict(ab, e=E())).dim((a, b_, 0))
        go('e_massign2', ab).dim((a, b_, 0))
        go('e_massign_eq', four).scalar(None, ONE, 'an assigned position equals the one it was assigned'); go('e_assign_eq', four).scalar(None, ONE, 'an assigned position equals the one it was assigned')
        go('e_move_eq', ab).scalar(None, ONE, 'a moved position equals the original'); go('e_ne', four).scalar(None, 1 - AND(eq(a, cc), eq(b_, dd)), 'two-dimensional comparison')
        go('e_eq', four).scalar(None, AND(eq(a, cc), eq(b_, dd)), 'two-dimensional comparison'); go('e_sum_eq', four).scalar(None, ONE, 'sum compares equal to its coordinates'); go('e_diff_eq', four).scalar(None, ONE, 'difference compares equal to its coordinates')
        pn = [n('a' + s) for s in 'xyz']
        go('d_count', dict(a=D3(pn)), pn).scalar(None, pn[0] * pn[1] * pn[2], 'element count'); go('e_count', dict(a=n('a'), b=n('b')), [n('a'), n('b')]).scalar(None, n('a') * n('b'), 'element count')
        qn = [n('b' + s) for s in 'xyz']
        R = go('it_deq', dict(a=D3(pn), b=D3(qn), p=P3('p'), q=P3('q')))
        R.scalar(None, AND(*[eq(x, y) for x, y in zip(pn, qn)], *[eq(z('p' + s), z('q' + s)) for s in 'xyz']), 'position comparison')
    def defined(R, what, v, allow=None, zero=()):
        if v is None: return R.add(what, 'undecided', R.err or 'no value')
        bad = []; num = [0]
        def walk(v, path):
            if isinstance(v, VObj):
                for k2, x in v.f.items(): walk(x, path + (k2,))
            elif isinstance(v, VMat):
                for i, x in enumerate(v.dim): walk(x, path + ('size %s' % 'xyz'[i],))
                if not any(R.F.simplify(x).const() == 0 for x in v.dim): walk(v.body, path + ('elements',))
            elif isinstance(v, VVec):
                walk(v.size, path + ('size',))
                if R.F.simplify(v.size).const() != 0: walk(v.body, path + ('elements',))
            elif isinstance(v, VList):
                for i, x in enumerate(v.a): walk(x, path + (str(i),))
            elif isinstance(v, VOpt): walk(v.has, path + ('engaged',))
            elif isinstance(v, VIte): walk(v.a, path); walk(v.b, path)
            elif isinstance(v, Poly):
                num[0] += 1
                sy = R.F.simplify(v).syms()
                if any(s.startswith('undef') for s in sy): bad.append('.'.join(path))
                elif allow is not None and (sy - allow): bad.append('.'.join(path))
            elif isinstance(v, VOpq) and v.kind.startswith('undef'): bad.append('.'.join(path))
        walk(v, ())
        for f in bad: R.add('%s: field %s' % (what, f), 'refuted', 'has no definite value when the constructor returns')
        if not bad: R.add(what, 'proved', '%d scalar values' % num[0])
    def objects(c, names):
        h = H(c, ['objects.cpp', 'src/MNISTReader.cpp'])
        for ent in names:
            given = {}; facts = []
            if ent in ('kernel',): given = dict(d=D3(map(n, 'dx dy dz'.split())), k=n('k'), s=n('s'))
            elif ent.startswith('pooling'): given = dict(d=D2((n('dx'), n('dy'))), s=D2((n('sx'), n('sy'))))
            elif ent in ('connected2', 'fill', 'filli', 'fillb', 'filld'): given = dict(d=D3(map(n, 'dx dy dz'.split())))
            elif ent == 'activation': given = dict(f=n('f')); facts = [n('f'), 4 - n('f')]
            setup = None
            if ent == 'reader': setup = c28.Files('a', 'b').setup; facts = list(c28.FACTS)
            R = Run(c, h, 'drv::' + ent, facts, given, 'drivers/objects.cpp ' + ent, 'definite-assignment dataflow: no field of the constructed object keeps an indeterminate value', limit=60, setup=setup)
            what = 'every scalar field has a value'
            if R.err:
                # the body is outside the analysed subset: every field that has a value before the body starts keeps having one
                v = [v for rt, v in R.I.st.heap.items() if rt[0] == 'o'] if getattr(R, 'I', None) is not None else []
                n0 = len(c.obl)
                for o in v: defined(R, what, o)
                if not v or any(o['status'] != 'proved' for o in c.obl[n0:]): del c.obl[n0:]; R.add(what, 'undecided', R.err)
                continue
            for e in R.out.rets():
                objs = [v for rt, v in e.heap.items() if rt[0] == 'o']
                if not objs: R.add(what, 'undecided', 'object not found')
                for v in objs: defined(R, what, v)
    k = (len(OBJ) + 3) // 4
    par(c, [dims] + [lambda c, i=i: objects(c, OBJ[i::4]) for i in range(4)])
