"""Reductions, extreme positions and matrix equality."""
from .common import *
from .c08 import dim3, IM, A3
def run(c):
    W = 'include/cnn_from_scratch/Matrix/MatrixMath.h '
    RULE = 'value-flow summary equals the reduction over every position of the shape'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split()))
    e = bx, by, bz = tuple(map(n, 'bx by bz'.split()))
    t = tx, ty, tz = tuple(map(n, 'tx ty tz'.split())); u = tuple(map(n, 'ux uy uz'.split()))
    outer = tuple(a + b_ + g for a, b_, g in zip(d, t, u))
    win = dict(P=mat('P', outer), at=dim3(t), size=dim3(d))
    KIND = dict(m=(dict(A=mat('A', d)), lambda x, y, q: A3('A', x, y, q)), i=(dict(A=mat('A', d, IM, True)), lambda x, y, q: A3('A', x, y, q, True)),
                v=(win, lambda x, y, q: A3('P', x + tx, y + ty, q + tz)), e=(dict(A=mat('A', d), B=mat('B', d)), lambda x, y, q: A3('A', x, y, q) - A3('B', x, y, q)))
    full = [ax - 1, ay - 1, az - 1]
    def ext(f, kind, comp):
        vs = [fresh('m', 2) for _ in range(3)]
        return best(vs, [P(q) for q in d], f(*[P(v) for v in vs]), kind, comp)
    def red(c):
        h = H(c, ['reductions.cpp'])
        for K, (given, f) in KIND.items():
            tot = ssum(d, f); cnt = ax * ay * az
            def go(nm, want, facts):
                R = Run(c, h, 'drv::%s_%s' % (K, nm), facts, given, W + nm, RULE, limit=60)
                R.throws(ZERO, None, 'accepted'); R.scalar(None, want, 'value')
            go('sum', tot, [])
            go('mean', idiv(tot, cnt) if K == 'i' else tot * inv(cnt), full)
            go('max', ext(f, 'max', 'val'), full)
            go('min', ext(f, 'min', 'val'), full)
            go('l2', fn('sqrt', ssum(d, lambda x, y, q: f(x, y, q) * f(x, y, q))), [])
    def posn(c):
        h = H(c, ['reductions.cpp'])
        for nm, kind in (('maxIndex', 'max'), ('minIndex', 'min')):
            for K, (given, f) in KIND.items():
                R = Run(c, h, 'drv::%s_%s' % (K, nm), full, dict(given, x=z('x'), y=z('y'), w=z('w')), W + nm, RULE, limit=60)
                R.throws(ZERO, None, 'accepted')
                for i, q in enumerate('xyw'): R.scalar(q, ext(f, kind, i), 'coordinate %d of the first extreme element' % i)
            given, f = KIND['m']
            R = Run(c, h, 'drv::f_' + nm, full, given, 'src/SimpleMatrix.tpp ' + nm, RULE, limit=60)
            R.throws(ZERO, None, 'accepted')
            R.scalar(None, ext(f, kind, 0) + ax * ext(f, kind, 1) + ax * ay * ext(f, kind, 2), 'flat index of the first extreme element')
    def equ(c):
        h = H(c, ['reductions.cpp'])
        same = AND(*[eq(a, b_) for a, b_ in zip(d, e)])
        def alleq(bad):
            vs = [fresh('m', 2) for _ in range(3)]
            return 1 - ex_box(vs, [P(q) for q in d], bad(*[P(v) for v in vs]))
        eps = r('eps')
        Bf = lambda x, y, q: A3('B', x, y, q); Bi = lambda x, y, q: A3('B', x, y, q, True)
        def go(ent, given, a, b_, tol=None, facts=()):
            R = Run(c, h, 'drv::' + ent, list(facts), given, W + 'matrixEqual', RULE, limit=60)
            R.throws(ZERO, None, 'accepted')
            bad = (lambda x, y, q: 1 - eq(a(x, y, q), b_(x, y, q))) if tol is None else (lambda x, y, q: 1 - le(tabs(a(x, y, q) - b_(x, y, q)), tol))
            R.scalar(None, same * alleq(bad), 'true exactly when shapes and all elements agree')
        fm, fi, fv = KIND['m'][1], KIND['i'][1], KIND['v'][1]
        go('eq_m', dict(A=mat('A', d), B=mat('B', e)), fm, Bf)
        go('eq_i', dict(A=mat('A', d, IM, True), B=mat('B', e, IM, True)), fi, Bi)
        go('eq_v', dict(win, B=mat('B', e)), fv, Bf)
        go('eq_e', dict(A=mat('A', d), B=mat('B', e), C=mat('C', e)), fm, lambda x, y, q: Bf(x, y, q) - A3('C', x, y, q))
        go('eps_m', dict(A=mat('A', d), B=mat('B', e), eps=eps), fm, Bf, eps)
        go('eps_v', dict(win, B=mat('B', e), eps=eps), fv, Bf, eps)
        go('eps_i', dict(A=mat('A', d, IM, True), B=mat('B', e, IM, True), eps=eps), fi, Bi, eps)
    par(c, [red, posn, equ])
