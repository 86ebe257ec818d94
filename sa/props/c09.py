"""Assignment of expressions that mention their own destination."""
from .common import *
from .c08 import dim3, IM, A3
from .c10 import dim2
def run(c):
    W = 'include/cnn_from_scratch/Matrix/SimpleMatrix.h SimpleMatrix::operator= '
    RULE = 'every element read while the destination is written is the value from before the assignment'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split()))
    rd = tuple(map(n, 'rx ry rz'.split()))
    t = tx, ty, tz = tuple(map(n, 'tx ty tz'.split())); u = tuple(map(n, 'ux uy uz'.split()))
    outer = tuple(a + b_ + g for a, b_, g in zip(d, t, u))
    s = r('s'); k = n('k')
    A = lambda x, y, q: A3('A', x, y, q); B = lambda x, y, q: A3('B', x, y, q)
    def all_(c):
        h = H(c, ['aliasing.cpp'])
        def go(ent, given, dims, f, facts=(), out='A'):
            R = Run(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE, limit=100)
            R.throws(ZERO, None, 'accepted'); R.matrix(out, dims, f, 'destination')
        mA = mat('A', d); T_ = (ay, ax, az); sq = (ax, ax, az); mS = mat('A', sq)
        go('a_transpose', dict(A=mA), T_, lambda x, y, q: A(y, x, q))
        go('a_transpose_s', dict(A=mA, s=s), T_, lambda x, y, q: A(y, x, q) * s - s)
        go('a_apply', dict(A=mA, s=s), T_, lambda x, y, q: A(y, x, q) + s)
        go('a_symm', dict(A=mS), sq, lambda x, y, q: A(x, y, q) + A(y, x, q))
        go('a_rot1', dict(A=mS), sq, lambda x, y, q: A(ax - 1 - y, x, q))
        go('a_rot2', dict(A=mA), d, lambda x, y, q: A(ax - 1 - x, ay - 1 - y, q))
        go('a_rot3', dict(A=mS), sq, lambda x, y, q: A(y, ax - 1 - x, q))
        go('a_arith', dict(A=mA, B=mat('B', d)), d, lambda x, y, q: A(x, y, q) * B(x, y, q) - A(x, y, q))
        go('a_product', dict(A=mat('A', (ax, k, az)), B=mat('B', (k, ay, az))), d, lambda x, y, q: ssum((k,), lambda i: A(x, i, q) * B(i, y, q)))
        go('a_productr', dict(A=mat('A', (k, ay, az)), B=mat('B', (ax, k, az))), d, lambda x, y, q: ssum((k,), lambda i: B(x, i, q) * A(i, y, q)))
        go('a_square', dict(A=mS), sq, lambda x, y, q: ssum((ax,), lambda i: A(x, i, q) * A(i, y, q)))
        win = dict(A=mat('A', outer), at=dim3(t), size=dim3(d))
        go('a_view', win, d, lambda x, y, q: A(x + tx, y + ty, q + tz))
        go('a_viewe', dict(win, s=s), d, lambda x, y, q: A(x + tx, y + ty, q + tz) * s)
        go('a_viewt', win, T_, lambda x, y, q: A(y + tx, x + ty, q + tz))
        go('a_slice', dict(A=mA, k=k), (ax, ay, 1), lambda x, y, q: A(x, y, k), [az - 1 - k])
        fx, fy, sx, sy, ox, oy, rx, ry = map(n, 'fx fy sx sy ox oy px py'.split())
        F = [fx - 1, fy - 1, sx - 1, sy - 1, ox - 1, oy - 1, sx - 1 - rx, sy - 1 - ry]
        dA = (fx + (ox - 1) * sx + rx, fy + (oy - 1) * sy + ry, 1); dB = (fx, fy, 1)
        cv = lambda a, b_: lambda x, y, q: ssum((fx, fy), lambda i, j: a(x * sx + i, y * sy + j, ZERO) * b_(i, j, ZERO))
        go('a_conv', dict(A=mat('A', dA), B=mat('B', dB), st=dim2(sx, sy)), (ox, oy, 1), cv(A, B), F)
        go('a_convf', dict(A=mat('A', dB), B=mat('B', dA), st=dim2(sx, sy)), (ox, oy, 1), cv(B, A), F)
        go('a_self', dict(A=mA), d, A)
        mR = mat('R', rd)
        go('a_expr', dict(R=mR, A=mA, B=mat('B', d)), d, lambda x, y, q: A(x, y, q) - B(x, y, q), out='R')
        go('a_other', dict(R=mR, A=mat('A', d, IM, True)), d, lambda x, y, q: A3('A', x, y, q, True), out='R')
        go('a_othere', dict(R=mat('R', rd, IM, True), A=mA, s=s), d, lambda x, y, q: fn('trunc', A(x, y, q) * s), out='R')
        go('a_copy', dict(R=mR, A=mA), d, A, out='R')
        go('a_move', dict(R=mR, A=mA), d, A, out='R')
    par(c, [all_])
