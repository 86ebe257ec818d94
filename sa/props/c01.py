"""Refusal of operands that do not fit: condition, exception class, and operands untouched."""
from .common import *
IM = 'my_cnn::SimpleMatrix<int>'
A3 = lambda nm, x, y, q, i=False: app(nm, [x, y, q], i)
def dim3(p): return VObj('my_cnn::Dim<3>', dict(zip('xyz', [P(q) for q in p])))
OPS = 'add sub mul div lt le gt ge eq ne'.split()
def run(c):
    W = 'include/cnn_from_scratch/Matrix/MatrixMath.h '
    RULE = 'refused with the documented exception exactly when the shapes do not fit, and then nothing was written'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split()))
    e = bx, by, bz = tuple(map(n, 'bx by bz'.split()))
    u = ux, uy, uz = tuple(map(n, 'ux uy uz'.split()))
    t = tx, ty, tz = tuple(map(n, 'tx ty tz'.split()))
    g = gx, gy, gz = tuple(map(n, 'gx gy gz'.split()))
    w = wx, wy, wz = tuple(map(n, 'wx wy wz'.split()))
    rd = tuple(map(n, 'rx ry rz'.split()))
    outer = tuple(a + b_ + q for a, b_, q in zip(d, u, t))
    outer2 = tuple(a + b_ + q for a, b_, q in zip(e, g, w))
    mA, mB, mR, mP, mQ = mat('A', d), mat('B', e), mat('R', rd), mat('P', outer), mat('Q', outer2)
    iA = mat('A', d, IM, True)
    val = dict(A=(d, lambda x, y, q: A3('A', x, y, q)), B=(e, lambda x, y, q: A3('B', x, y, q)), R=(rd, lambda x, y, q: A3('R', x, y, q)),
               P=(outer, lambda x, y, q: A3('P', x, y, q)), Q=(outer2, lambda x, y, q: A3('Q', x, y, q)), Ai=(d, lambda x, y, q: A3('A', x, y, q, True)))
    win = dict(P=mP, at=dim3(t), size=dim3(d))
    same = AND(*[eq(a, b_) for a, b_ in zip(d, e)])
    sameT = AND(eq(ax, by), eq(ay, bx), eq(az, bz))
    def go(c, h, ent, given, fits, keep, code=1, facts=(), where=W, scal=()):
        R = Run(c, h, 'drv::' + ent, list(facts), given, where + ent, RULE, limit=60, skip=('division',))
        R.throws(ZERO, None, 'no other exception')
        R.scalar(None, (1 - fits) * code, 'refused exactly when the operands do not fit')
        for k in keep:
            dd, f = val[k]
            R.matrix(k[0], dd, f, 'operand %s after a refusal' % k[0], cond=1 - fits)
        for k in scal: R.scalar(k, r(k), 'destination after a refusal', cond=1 - fits)
        return R
    def ops(nm, c):
        h = H(c, ['shapes.cpp'])
        go(c, h, 'mm_' + nm, dict(A=mA, B=mB, R=mR), same, 'ABR')
        go(c, h, 'ii_' + nm, dict(A=iA, B=mB, R=mR), same, ['Ai', 'B', 'R'])
        go(c, h, 'tt_' + nm, dict(A=mA, B=mB, R=mR), same, 'ABR')
        go(c, h, 'vm_' + nm, dict(win, B=mB, R=mR), same, 'PBR')
        go(c, h, 'mv_' + nm, dict(A=mB, P=mP, at=dim3(t), size=dim3(d), R=mR), same, 'PR')
        go(c, h, 'em_' + nm, dict(A=mA, B=mB, R=mR, s=r('s')), sameT, 'ABR')
        if nm in ('add', 'sub', 'mul', 'div'):
            go(c, h, 'cm_' + nm, dict(A=mA, B=mB), same, 'AB')
            go(c, h, 'ci_' + nm, dict(A=iA, B=mB), same, ['Ai', 'B'])
            go(c, h, 'ce_' + nm, dict(A=mA, B=mB), sameT, 'AB')
            go(c, h, 'cv_' + nm, dict(win, B=mB), same, 'PB')
            go(c, h, 'cw_' + nm, dict(A=mB, P=mP, at=dim3(t), size=dim3(d)), same, 'P')
    def rest(c):
        h = H(c, ['shapes.cpp'])
        S = 'include/cnn_from_scratch/Matrix/SimpleMatrix.h '
        go(c, h, 'product', dict(A=mA, B=mB, R=mR), AND(eq(az, bz), eq(ay, bx)), 'ABR')
        go(c, h, 'productt', dict(A=mA, B=mB, R=mR), AND(eq(az, bz), eq(ay, by)), 'ABR')
        vecd = lambda q: AND(eq(q[2], 1), OR(eq(q[0], 1), eq(q[1], 1)))
        fit = AND(vecd(d), vecd(e), eq(ax * ay * az, bx * by * bz))
        go(c, h, 'dotp', dict(A=mA, B=mB, r=r('r')), fit, 'AB', scal=['r'])
        go(c, h, 'dotv', dict(win, B=mB, r=r('r')), fit, 'PB', scal=['r'])
        go(c, h, 'view_assign', dict(win, B=mB), same, 'PB', where='src/SubMatrixView.tpp ')
        go(c, h, 'view_assigne', dict(win, B=mB), sameT, 'PB', where='src/SubMatrixView.tpp ')
        go(c, h, 'view_assignv', dict(win, Q=mQ, at2=dim3(w), size2=dim3(e)), same, 'PQ', where='src/SubMatrixView.tpp ')
        nv = n('v.n')
        go(c, h, 'set_entries', dict(A=mA), eq(ax * ay * az, nv), 'A', where=S)
        go(c, h, 'list_assign', dict(A=mA), eq(ax * ay * az, nv), 'A', where=S)
        go(c, h, 'list_ctor', dict(d=dim3(d), R=mR), eq(ax * ay * az, nv), 'R', where=S)
        qx, qy, qz = map(n, 'qx qy qz'.split())
        go(c, h, 'reshape3', dict(A=mA, x=qx, y=qy, w=qz), eq(ax * ay * az, qx * qy * qz), 'A', 2, where=S)
        go(c, h, 'reshaped', dict(A=mA, d=dim3((qx, qy, qz))), eq(ax * ay * az, qx * qy * qz), 'A', 2, where=S)
        go(c, h, 'rot1', dict(A=mA, R=mR), eq(ax, ay), 'AR', 2)
        go(c, h, 'rot3', dict(A=mA, R=mR), eq(ax, ay), 'AR', 2)
        go(c, h, 'rot1t', dict(A=mA, R=mR), eq(ax, ay), 'AR', 2)
        go(c, h, 'rot2', dict(A=mA, R=mR), ONE, '')
        go(c, h, 'scalar_ops', dict(A=mA, R=mR, s=r('s')), ONE, '')
        go(c, h, 'assign_any', dict(A=mA, R=mR), ONE, '')
        go(c, h, 'assign_expr', dict(A=mA, R=mR, s=r('s')), ONE, '')
        go(c, h, 'assign_view', dict(win, R=mR), ONE, '')
        go(c, h, 'view_fill', dict(win, s=r('s')), ONE, '', where='src/SubMatrixView.tpp ')
    par(c, [rest] + [lambda c, q=q: ops(q, c) for q in OPS])
