"""Lazy expressions: what they refer to, and what they evaluate to later."""
from .common import *
from ..values import *
W = 'include/cnn_from_scratch/Matrix/MatrixMath.h '
RULE = 'points-to analysis of the returned expression: every object reachable from it is part of it or a named operand'
RULE2 = 'value-flow summary of an expression evaluated after its operands changed'
OPN = 'add sub mul div lt le gt ge eq ne'.split()
def reach(v, out, path='expression'):
    """the roots of every reference and pointer in an abstract value"""
    if isinstance(v, LV): out.append((v.root, path))
    elif isinstance(v, (VRef, VPtr)):
        if v.lv is not None: reach(v.lv, out, path)
    elif isinstance(v, VObj):
        for k, x in v.f.items(): reach(x, out, path + '.' + str(k))
    elif isinstance(v, VMat): reach(v.body, out, path)
    elif isinstance(v, VVec): reach(v.body, out, path)
    elif isinstance(v, VList):
        for x in v.a: reach(x, out, path)
    elif isinstance(v, (VMIt, VVIt)): reach(v.lv, out, path)
    elif isinstance(v, VOpt): reach(v.val, out, path)
    elif isinstance(v, VIte): reach(v.a, out, path); reach(v.b, out, path)
    elif isinstance(v, VFun):
        for k, x in (v.caps.items() if isinstance(v.caps, dict) else []): reach(x, out, path + '[capture %s]' % k)
        if v.this is not None: reach(v.this, out, path + '[this]')
    elif isinstance(v, (Poly, VStr, VOpq)) or v is None: pass
    else: raise Unsupported('value of kind %s in an expression' % type(v).__name__)
def run(c):
    h = H(c, ['lifetime.cpp'])
    d = ax, ay, az = tuple(map(n, 'ax ay az'.split()))
    bx, by = n('bx'), n('by')
    sx, sy = n('sx'), n('sy')
    mA, mB = mat('A', d), mat('B', d)
    st = VObj('my_cnn::Dim<2>', dict(x=sx, y=sy))
    def esc(ent, facts=(), **given):
        R = Run(c, h, 'drv::' + ent, [ax - 1, ay - 1, az - 1] + list(facts), dict(dict(A=mA, B=mB), **given), W + ent, RULE, limit=60, skip=('division', 'vector', 'matrix'))
        what = 'refers to nothing but the named operands'
        if R.err: return R.add(what, 'undecided', R.err)
        try:
            heap, val, live = R.out.ret()
            out = []
            if isinstance(val, LV): R.add('handed out by value', 'refuted', 'the result is a reference to %s' % val.root); return
            reach(val, out)
        except Unsupported as e: return R.add(what, 'undecided', str(e))
        if not isinstance(val, (VObj, VIte)): return R.add(what, 'undecided', 'not an expression object: %s' % type(val).__name__)
        ok = {lv.root for lv in R.I.arg_lvs.values() if isinstance(lv, LV)}
        bad = [(r_, p) for r_, p in out if r_ not in ok]
        if bad: R.add(what, 'refuted', '; '.join('%s refers to the local or temporary object %s' % (p, r_) for r_, p in bad)[:600])
        else: R.add(what, 'proved', '%d references, all to named operands' % len(out))
    def ops(c, nm):
        for k in 'nn cc tt tn nt kt mn es se ns sn ts st lit vv vs'.split(): esc('%s_%s' % (k, nm))
        esc('tr_' + nm)
    def uns(c, nm):
        for k in 'n c t k e d v'.split(): esc('%s_%s' % (k, nm), [ax - ay, ay - ax] if nm in ('rot1', 'rot3') else ())
    def prods(c):
        for k in 'fn fnt obj objt lam lamt'.split(): esc('apply_' + k)
        esc('apply2')
        B = mat('B', (ay, by, az))
        for k in 'nn cc tt tn nt kt'.split(): esc('p_' + k, [by - 1], B=B)
        esc('p_ee', [by - 1], B=mat('B', (ax, by, az)))
        esc('p_pp', [ax - 1], B=mat('B', (ay, ax, az)))
        for k in 'nn cc tt tn nt kt ee'.split():
            esc('c_' + k, [bx - 1, by - 1, sx - 1, sy - 1, ax - bx, ay - by], A=mat('A', (ax, ay, ONE)), B=mat('B', (bx, by, ONE)), st=st)
    def later(c):
        p = px, py, pz = tuple(map(n, 'px py pz'.split()))
        dp = VObj('my_cnn::Dim<3>', dict(zip('xyz', map(P, p))))
        s, t = r('s'), r('t')
        fs = [ax - 1 - px, ay - 1 - py, az - 1 - pz]
        a, b = app('A', list(p)), app('B', list(p))
        def go(ent, want, facts=fs, **given):
            R = Run(c, h, 'drv::' + ent, [ax - 1, ay - 1, az - 1] + list(facts), dict(dict(A=mA, B=mB, p=dp, s=s, t=t), **given), W + ent, RULE2, limit=60, skip=('division',))
            R.throws(ZERO, None, 'accepted'); R.scalar(None, want, 'value when evaluated later')
        ab = lambda v: ite(lt(v, ZERO), -v, v)
        go('l_named', s + b); go('l_temp', a * b); go('l_scalar', a - s); go('l_scalarl', s * inv(a)); go('l_func', a * s)
        go('l_unary', ab(s)); go('l_unaryt', ab(a)); go('l_trans', s); go('l_rot', s)
        go('l_nest', (a + b) * s); go('l_nestt', (s - b) * a); go('l_view', s + b); go('l_viewt', s + b)
        B1 = mat('B', (ay, by, az)); one = [by - 1]
        A0 = lambda q: app('A', [ZERO, q, ZERO]); Bq = lambda q: app('B', [q, ZERO, ZERO])
        go('l_prod', ssum((ay,), lambda q: A0(q) * Bq(q)) + (s - t) * Bq(ZERO) - A0(ZERO) * Bq(ZERO) + t * Bq(ZERO), [by - 1], B=B1)
        cv = dict(A=mat('A', (ax, ay, ONE)), B=mat('B', (ONE, ONE, ONE)))
        go('l_conv', s * app('B', [ZERO, ZERO, ZERO]), [], **cv)
        go('l_convt', app('A', [ZERO, ZERO, ZERO]) * app('B', [ZERO, ZERO, ZERO]), [], **cv)
        go('k_left', s + b); go('k_right', b - s); go('k_both', s * s); go('k_nonconst', s + s); go('k_less', lt(s, b))
        go('k_scalar', s * t); go('k_scalarl', t - s); go('k_unary', ab(s)); go('k_func', s * t); go('k_trans', s); go('k_rot', s); go('k_turn', s)
        go('k_nest', (s + b) * s); go('k_inner', (s + b) * 2); go('k_view', s + b)
        go('k_prod', ssum((ay,), lambda q: A0(q) * Bq(q)) + (s - t) * Bq(ZERO) - A0(ZERO) * Bq(ZERO) + t * Bq(ZERO), [by - 1], B=B1)
        B2 = mat('B', (by, ax, az)); Br = lambda q: app('B', [ZERO, q, ZERO]); Ac = lambda q: app('A', [q, ZERO, ZERO])
        go('k_prodr', ssum((ax,), lambda q: Br(q) * Ac(q)) + (s - Ac(ZERO)) * Br(ZERO), [by - 1], B=B2)
        go('k_conv', s * app('B', [ZERO, ZERO, ZERO]), [], **cv)
        go('k_convr', s * app('B', [ZERO, ZERO, ZERO]), [bx - 1, by - 1], A=mat('A', (ONE, ONE, ONE)), B=mat('B', (bx, by, ONE)))
    jobs = [lambda c, nm=nm: ops(c, nm) for nm in OPN] + [lambda c, nm=nm: uns(c, nm) for nm in 'abs exp transpose rot1 rot2 rot3'.split()] + [prods, later]
    par(c, jobs)
