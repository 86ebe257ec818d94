"""Iterators: first position, successor, end, dereference, difference and comparison for matrices, views and expressions."""
from .raw import *
def run(c):
    W = 'include/cnn_from_scratch/Matrix/MatrixIterator.h '
    RULE = 'value-flow summary of the iterator operations at a symbolic position equals the column-major walk'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split())); p = tuple(map(n, 'px py pz'.split())); q = tuple(map(n, 'qx qy qz'.split()))
    t = tuple(map(n, 'tx ty tz'.split())); g = tuple(map(n, 'gx gy gz'.split()))
    big = tuple(a + b_ + e for a, b_, e in zip(d, t, g))
    s = r('s')
    ins = inside(p, d)
    def nxt(p):
        x1 = lt(p[0] + 1, ax); y1 = lt(p[1] + 1, ay)
        return (ite(x1, p[0] + 1, ZERO), ite(x1, p[1], ite(y1, p[1] + 1, ZERO)), ite(x1, p[2], ite(y1, p[2], p[2] + 1)))
    last = lambda p: AND(eq(p[0], ax - 1), eq(p[1], ay - 1), eq(p[2], az - 1))
    vol = ax * ay * az
    empty = OR(eq(ax, 0), eq(ay, 0), eq(az, 0))
    A = lambda p: app('A', [flat(p, d)])
    B = lambda p: app('B', [flat(p, d)])
    Pm = lambda p: app('P', [flat([a + b_ for a, b_ in zip(p, t)], big)])
    KINDS = dict(im=(dict(A=rmat('A', d)), A), ic=(dict(A=rmat('A', d)), A), iv=(dict(A=rmat('P', big), t=D3(t), w=D3(d)), Pm),
                 ik=(dict(A=rmat('P', big), t=D3(t), w=D3(d)), Pm), ix=(dict(A=rmat('A', d), B=rmat('B', d)), lambda p: A(p) + B(p)))
    def walk(N, c):
        h = H(c, ['storage.cpp'])
        given, val = KINDS[N]
        def go(ent, facts, pq=('p',)):
            gv = dict(given)
            if 'p' in pq: gv['p'] = D3(p)
            if 'q' in pq: gv['q'] = D3(q)
            R = Raw(c, h, 'drv::%s_%s' % (N, ent), list(facts), gv, W + N + '_' + ent, RULE, skip=('vector index',)); R.throws(ZERO, None, 'accepted'); return R
        more = Facts([P(f) for f in ins]).assume(1 - last(p))      # a following position exists
        # the successor as a position: split by which coordinate advances
        cases = [('x', ins + [ax - 2 - p[0]], (p[0] + 1, p[1], p[2]), {}),
                 ('y', inside((ax - 1, p[1], p[2]), d) + [ay - 2 - p[1]], (ZERO, p[1] + 1, p[2]), {p[0]: ax - 1}),
                 ('z', inside((ax - 1, ay - 1, p[2]), d) + [az - 2 - p[2]], (ZERO, ZERO, p[2] + 1), {p[0]: ax - 1, p[1]: ay - 1}),
                 ('end', [ax - 1, ay - 1, az - 1], (ZERO, ZERO, P(az)), {p[0]: ax - 1, p[1]: ay - 1, p[2]: az - 1})]
        go('idx', ins).dim(p, None, 'position'); go('val', ins).scalar(None, val(p), 'element')
        for nm, fs, np_, sub in cases:
            pp = tuple(P(sub.get(a, a)) for a in p)
            def go2(ent):
                gv = dict(given, p=D3(pp))
                R = Raw(c, h, 'drv::%s_%s' % (N, ent), list(fs), gv, W + N + '_' + ent, RULE, tag='%s_%s(%s)' % (N, ent, nm), skip=('vector index',)); R.throws(ZERO, None, 'accepted'); return R
            go2('next').dim(np_, None, 'position after ++it'); go2('post').dim(np_, None, 'position after it++')
            R = go2('atend'); R.scalar(None, ONE if nm == 'end' else ZERO, 'at the end'); R = go2('goes'); R.scalar(None, ZERO if nm == 'end' else ONE, 'not at the end')
            if nm != 'end': go2('postr').scalar(None, val(pp), 'it++ yields the old element'); go2('postri').dim(pp, None, 'it++ yields the old position')
            if nm != 'end':
                go2('nextv').scalar(None, val(np_), 'element after ++it'); go2('postv').scalar(None, val(np_), 'element after it++'); go2('prer').scalar(None, val(np_), '++it yields the new element')
        two = ins + [ax - 3 - p[0]]
        go('two', two).scalar(None, val((p[0] + 2, p[1], p[2])), 'two steps'); go('twoi', two).dim((p[0] + 2, p[1], p[2]), None, 'two steps')
        pq = ins + inside(q, d)
        go('dist', pq, 'pq').scalar(None, flat(p, d) - flat(q, d), 'difference counts the steps')
        same = AND(*[eq(a, b_) for a, b_ in zip(p, q)])
        go('eq', pq, 'pq').scalar(None, same, 'equal exactly at the same position'); go('ne', pq, 'pq').scalar(None, 1 - same, 'unequal exactly at different positions')
        if N in ('im', 'iv'):
            f = (lambda x: flat(x, d)) if N == 'im' else (lambda x: flat([a + b_ for a, b_ in zip(x, t)], big))
            nmv, dims = ('A', d) if N == 'im' else ('P', big)
            for ent, at_, fs in (('write', p, ins), ('nwrite', (p[0] + 1, p[1], p[2]), ins + [ax - 2 - p[0]])):
                R = Raw(c, h, 'drv::%s_%s' % (N, ent), list(fs), dict(given, p=D3(p), s=s), W + ent, RULE, skip=('vector index',)); R.throws(ZERO, None, 'accepted')
                R.store('A', dims, lambda i: ite(eq(i, f(at_)), s, app(nmv, [i])), 'after writing through the iterator')
        ends(c, h, N, given, val, d, False)
    def ends(c, h, N, given, val, dd, full=True):
        def go(ent, facts=()):
            R = Raw(c, h, 'drv::%s_%s' % (N, ent), list(facts), dict(given), W + N + '_' + ent, RULE, skip=('vector index',)); R.throws(ZERO, None, 'accepted'); return R
        ne = [P(x) - 1 for x in dd]
        emp = OR(*[eq(x, 0) for x in dd])
        go('all').scalar(None, P(dd[0]) * dd[1] * dd[2], 'number of steps from begin to end')
        go('empty').scalar(None, emp, 'begin equals end exactly when a size is zero'); go('more').scalar(None, 1 - emp, 'begin differs from end exactly when there is an element')
        go('first', ne).dim((0, 0, 0), None, 'first position')
        if val is not None: go('firstv', ne).scalar(None, val((ZERO, ZERO, ZERO)), 'first element')
        if full:
            go('second', [dd[0] - 2] + ne[1:]).dim((1, 0, 0), None, 'second position')
            go('dim').dim(dd, None, 'shape')
    E2 = (ay, ax, az)
    mA = rmat('A', d); bA = dict(A=rmat('P', big), t=D3(t), w=D3(d))
    sq = (ax, ax, az)
    k = n('k')
    m2 = rmat('B', (ay, k, az))
    ENDS = [('xc', dict(A=mA, B=rmat('B', d)), lambda p: A(p) + B(p), d), ('xs', dict(A=mA, s=s), lambda p: A(p) * s, d), ('xsc', dict(A=mA, s=s), lambda p: A(p) * s, d),
            ('xu', dict(A=mA), None, d), ('xuc', dict(A=mA), None, d), ('xp', dict(A=mA, B=m2), None, (ax, k, az)), ('xpc', dict(A=mA, B=m2), None, (ax, k, az)),
            ('xt', dict(A=mA), A, E2), ('xtc', dict(A=mA), A, E2), ('xr', dict(A=rmat('A', sq)), None, sq), ('vc', bA, Pm, d), ('vn', bA, Pm, d)]
    def tails(c, lo, hi):
        h = H(c, ['storage.cpp'])
        for N, gv, val, dd in ENDS[lo:hi]: ends(c, h, N, gv, val, dd)
    par(c, [lambda c, N=N: walk(N, c) for N in KINDS] + [lambda c, i=i: tails(c, i, i + 4) for i in (0, 4, 8)])
