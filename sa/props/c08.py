"""Elementwise operators, functions and index transforms."""
from .common import *
IM = 'my_cnn::SimpleMatrix<int>'; FM = 'my_cnn::SimpleMatrix<float>'; UM = 'my_cnn::SimpleMatrix<unsigned char>'
A3 = lambda nm, x, y, q, i=False: app(nm, [x, y, q], i)
def tdiv(a, b): return idiv(a, b)
OPS = dict(add=lambda a, b: P(a) + b, sub=lambda a, b: P(a) - b, mul=lambda a, b: P(a) * b, div=lambda a, b: P(a) * inv(b),
           lt=lt, le=le, gt=gt, ge=ge, eq=eq, ne=lambda a, b: 1 - eq(a, b))
def dim3(p): return VObj('my_cnn::Dim<3>', dict(zip('xyz', [P(q) for q in p])))
def run(c):
    W = 'include/cnn_from_scratch/Matrix/MatrixMath.h '
    RULE = 'value-flow summary of the expression at a symbolic position equals the operator on the corresponding elements'
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split()))
    e = ex_, ey, ez = tuple(map(n, 'ex ey ez'.split()))       # rest of the matrix around a window
    t = tx, ty, tz = tuple(map(n, 'tx ty tz'.split()))        # start of the window
    outer = tuple(a + b_ + q for a, b_, q in zip(d, e, t))
    s, s2, k = r('s'), r('t'), n('k')
    si = z('s')
    px, py, pz = map(n, 'px py pz'.split())
    nz = []                                                    # symbols that are not zero when dividing
    def A(x, y, q): return A3('A', x, y, q)
    def B(x, y, q): return A3('B', x, y, q)
    def C(x, y, q): return A3('C', x, y, q)
    def Pm(x, y, q): return A3('P', x + tx, y + ty, q + tz)
    def Ai(x, y, q): return A3('A', x, y, q, True)
    def Bi(x, y, q): return A3('B', x, y, q, True)
    mA, mB, mC = mat('A', d), mat('B', d), mat('C', d)
    iA, iB = mat('A', d, IM, True), mat('B', d, IM, True)
    mP = mat('P', outer)
    win = dict(P=mP, at=dim3(t), size=dim3(d))
    inw = lambda x, y, q: AND(ge(x, tx), lt(x, tx + ax), ge(y, ty), lt(y, ty + ay), ge(q, tz), lt(q, tz + az))
    pos_ = [ax - 1 - px, ay - 1 - py, az - 1 - pz]
    cast = lambda v: v
    def two(nm, c):
        h = H(c, ['elementwise.cpp'])
        f = OPS[nm]
        idv = idiv if nm == 'div' else f
        def go(ent, given, want, dims=d, facts=(), out=None, trunc=False):
            R = Run(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE, limit=60, skip=('division',))   # dividing by zero elements is the caller's
            R.throws(ZERO, None, 'accepted')
            if want is not None: R.matrix(out, dims, want, 'result')
            return R
        go('mm_' + nm, dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('ii_' + nm, dict(A=iA, B=iB), lambda x, y, q: idv(Ai(x, y, q), Bi(x, y, q)))
        go('im_' + nm, dict(A=iA, B=mB), lambda x, y, q: f(Ai(x, y, q), B(x, y, q)))
        go('mi_' + nm, dict(A=mA, B=iB), lambda x, y, q: f(A(x, y, q), Bi(x, y, q)))
        go('ms_' + nm, dict(A=mA, s=s), lambda x, y, q: f(A(x, y, q), s))
        go('sm_' + nm, dict(A=mA, s=s), lambda x, y, q: f(s, A(x, y, q)))
        go('is_' + nm, dict(A=iA, s=s), lambda x, y, q: f(Ai(x, y, q), s))
        go('si_' + nm, dict(A=iA, s=s), lambda x, y, q: f(s, Ai(x, y, q)))
        go('mt_' + nm, dict(A=mA, s=si), lambda x, y, q: f(A(x, y, q), si))
        go('tm_' + nm, dict(A=mA, s=si), lambda x, y, q: f(si, A(x, y, q)))
        go('vm_' + nm, dict(win, B=mB), lambda x, y, q: f(Pm(x, y, q), B(x, y, q)))
        go('mv_' + nm, dict(win, A=mA), lambda x, y, q: f(A(x, y, q), Pm(x, y, q)))
        go('tt_' + nm, dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('nest_' + nm, dict(A=mA, B=mB, C=mC, s=s), lambda x, y, q: f(f(A(x, y, q), B(x, y, q)), f(C(x, y, q), s)))
        go('ts_' + nm, dict(A=mA, s=s), lambda x, y, q: f(A(x, y, q), s))
        go('st_' + nm, dict(A=mA, s=s), lambda x, y, q: f(s, A(x, y, q)))
        go('tn_' + nm, dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('nt_' + nm, dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('named_' + nm, dict(A=mA, B=mB, s=s), lambda x, y, q: f(f(f(A(x, y, q), B(x, y, q)), s), f(A(x, y, q), B(x, y, q))))
        go('again_' + nm, dict(A=mA, B=mB, s=s), lambda x, y, q: f(f(A(x, y, q), B(x, y, q)), f(A(x, y, q), B(x, y, q))))
        go('ff_' + nm, dict(A=mat('A', d, FM), B=mat('B', d, FM)), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('fs_' + nm, dict(A=mat('A', d, FM), s=s), lambda x, y, q: f(A(x, y, q), s))
        go('us_' + nm, dict(A=mat('A', d, UM, True), s=si), lambda x, y, q: idv(Ai(x, y, q), si))
        p = dim3((px, py, pz))
        for ent, g, w in (('at_', dict(A=mA, B=mB), f(A(px, py, pz), B(px, py, pz))), ('xyz_', dict(A=mA, B=mB), f(A(px, py, pz), B(px, py, pz))),
                          ('sat_', dict(A=mA, s=s), f(A(px, py, pz), s)), ('sxyz_', dict(A=mA, s=s), f(s, A(px, py, pz)))):
            R = Run(c, h, 'drv::' + ent + nm, pos_, dict(g, p=p), W + ent + nm, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.scalar(None, w, 'element')
    def comp(nm, c):
        h = H(c, ['elementwise.cpp'])
        f = OPS[nm]
        tr = lambda v: fn('trunc', v)
        def go(ent, given, want, dims=d, facts=(), out='A'):
            R = Run(c, h, 'drv::%s_%s' % (ent, nm), list(facts), given, W + ent + '_' + nm, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.matrix(out, dims, want, 'result')
            return R
        R = go('cm', dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        R.matrix('B', d, B, 'right operand')
        go('cs', dict(A=mA, s=s), lambda x, y, q: f(A(x, y, q), s))
        go('ci', dict(A=mA, B=iB), lambda x, y, q: f(A(x, y, q), Bi(x, y, q)))
        go('cmi', dict(A=iA, B=mB), lambda x, y, q: tr(f(Ai(x, y, q), B(x, y, q))))
        go('csi', dict(A=iA, s=s), lambda x, y, q: tr(f(Ai(x, y, q), s)))
        go('ce', dict(A=mA, B=mB, C=mC), lambda x, y, q: f(A(x, y, q), B(x, y, q) - C(x, y, q)))
        Po = lambda x, y, q: A3('P', x, y, q)
        go('cv', dict(win, B=mB), lambda x, y, q: ite(inw(x, y, q), f(Po(x, y, q), B(x - tx, y - ty, q - tz)), Po(x, y, q)), outer, out='P')
        go('cvs', dict(win, s=s), lambda x, y, q: ite(inw(x, y, q), f(Po(x, y, q), s), Po(x, y, q)), outer, out='P')
        go('csl', dict(P=mat('P', d), k=k, B=mat('B', (ax, ay, 1))), lambda x, y, q: ite(eq(q, k), f(Po(x, y, q), B(x, y, 0)), Po(x, y, q)), facts=[az - 1 - k], out='P')
        el = dict(p=dim3((px, py, pz)))
        go('csa', dict(A=mA, **el), lambda x, y, q: f(A(x, y, q), A(px, py, pz)), facts=pos_)
        go('csf', dict(A=mA), lambda x, y, q: f(A(x, y, q), A(0, 0, 0)), facts=[ax - 1, ay - 1, az - 1])
        go('cvsa', dict(win, **el), lambda x, y, q: ite(inw(x, y, q), f(Po(x, y, q), Po(px + tx, py + ty, pz + tz)), Po(x, y, q)), outer, pos_, out='P')
        go('cta', dict(A=mA, B=mB), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('cff', dict(A=mat('A', d, FM), B=mat('B', d, FM)), lambda x, y, q: f(A(x, y, q), B(x, y, q)))
        go('self', dict(A=mA), lambda x, y, q: f(A(x, y, q), A(x, y, q)))
        go('chain', dict(A=mA, B=mB, s=s), lambda x, y, q: f(f(A(x, y, q), B(x, y, q)), s))
    def un(c):
        h = H(c, ['elementwise.cpp'])
        def go(ent, given, want, dims=d, facts=(), out=None):
            R = Run(c, h, 'drv::' + ent, list(facts), given, W + ent, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.matrix(out, dims, want, 'result')
        go('u_abs', dict(A=mA), lambda x, y, q: tabs(A(x, y, q)))
        go('u_absi', dict(A=iA), lambda x, y, q: tabs(Ai(x, y, q)))
        go('u_abst', dict(A=mA, B=mB), lambda x, y, q: tabs(A(x, y, q) - B(x, y, q)))
        go('u_member_abs', dict(A=mA), lambda x, y, q: tabs(A(x, y, q)))
        go('u_exp', dict(A=mA), lambda x, y, q: fn('exp', A(x, y, q)))
        go('u_apply', dict(A=mA), lambda x, y, q: A(x, y, q) * Fraction(1, 2))
        go('u_applyl', dict(A=mA, s=s, t=s2), lambda x, y, q: A(x, y, q) * s + s2)
        go('u_modify', dict(A=mA, s=s), lambda x, y, q: A(x, y, q) * A(x, y, q) + s, out='A')
        Po = lambda x, y, q: A3('P', x, y, q)
        go('u_modifyv', dict(win, s=s), lambda x, y, q: ite(inw(x, y, q), Po(x, y, q) * Po(x, y, q) + s, Po(x, y, q)), outer, out='P')
        T_ = (ay, ax, az)
        go('u_transpose', dict(A=mA), lambda x, y, q: A(y, x, q), T_)
        go('u_transposee', dict(A=mA, B=mB), lambda x, y, q: A(y, x, q) - B(y, x, q), T_)
        go('u_transposev', win, lambda x, y, q: Pm(y, x, q), T_)
        go('u_transpose2', dict(A=mA), lambda x, y, q: A(x, y, q))
        sq = (ax, ax, az); qA = mat('A', sq)
        go('u_rot1', dict(A=qA), lambda x, y, q: A(ax - 1 - y, x, q), sq)
        go('u_rot3', dict(A=qA), lambda x, y, q: A(y, ax - 1 - x, q), sq)
        go('u_rot1e', dict(A=qA, s=s), lambda x, y, q: A(ax - 1 - y, x, q) * s, sq)
        go('u_rot2', dict(A=mA), lambda x, y, q: A(ax - 1 - x, ay - 1 - y, q))
        go('u_rot2v', win, lambda x, y, q: Pm(ax - 1 - x, ay - 1 - y, q))
        go('u_abstt', dict(A=mA), lambda x, y, q: tabs(A(x, y, q)))
        go('u_expt', dict(A=mA), lambda x, y, q: fn('exp', A(x, y, q)))
        go('u_exps', dict(A=mA, s=s), lambda x, y, q: fn('exp', A(x, y, q) * s))
        go('u_applyt', dict(A=mA), lambda x, y, q: A(x, y, q) * Fraction(1, 2))
        go('u_transposet', dict(A=mA), lambda x, y, q: A(y, x, q), T_)
        go('u_transposen', dict(A=mA, B=mB), lambda x, y, q: A(y, x, q) - B(y, x, q), T_)
        go('u_transposec', dict(A=mA, B=mB), lambda x, y, q: A(y, x, q) * B(y, x, q) - A(y, x, q), T_)
        go('u_rot1t', dict(A=qA), lambda x, y, q: A(ax - 1 - y, x, q), sq)
        go('u_rot2t', dict(A=mA), lambda x, y, q: A(ax - 1 - x, ay - 1 - y, q))
        go('u_rot3t', dict(A=qA), lambda x, y, q: A(ax - 1 - x, y, q), sq)
        go('u_rot22', dict(A=mA), lambda x, y, q: A(x, y, q))
        p = dim3((px, py, pz))
        for ent in ('u_at', 'u_xyz'):
            R = Run(c, h, 'drv::' + ent, [ay - 1 - px, ax - 1 - py, az - 1 - pz], dict(A=mA, p=p), W + ent, RULE, limit=60)
            R.throws(ZERO, None, 'accepted'); R.scalar(None, A(py, px, pz), 'element')
    par(c, [un] + [lambda c, q=q: comp(q, c) for q in ('add', 'sub', 'mul', 'div')] + [lambda c, q=q: two(q, c) for q in OPS])
