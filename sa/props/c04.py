"""Views: refused unless the window is inside, position p is element start+p, checked access stays inside."""
from .raw import *
def run(c):
    d = tuple(map(n, 'ax ay az'.split()))
    t, w, t2, w2, p = [tuple(z(k + q) for q in 'xyz') for k in ('t', 'w', 'u', 'v', 'p')]
    i, m, s = z('i'), z('m'), r('s')
    mA = rmat('A', d)
    A = lambda q: app('A', [q])
    SZ = 'my_cnn::MatrixSizeException'
    def bad(t, w, d):
        return OR(*[1 - ge0(P(x)) for x in t], *[1 - ge0(P(x)) for x in w], *[1 - ge0(P(e) - a - b_) for a, b_, e in zip(t, w, d)])
    add = lambda a, b_: tuple(P(x) + y for x, y in zip(a, b_))
    lay = lambda dd: ((ZERO, ZERO, i), (dd[0], dd[1], m)); one = lambda dd: ((ZERO, ZERO, i), (dd[0], dd[1], ONE))
    G1 = dict(A=mA, t=D3(t), w=D3(w)); G2 = dict(G1, t2=D3(t2), w2=D3(w2)); GI = dict(A=mA, i=i, m=m); GVI = dict(G1, i=i, m=m)
    # name: writable, arguments, condition of refusal, start and size of the window
    cases = dict(va=(1, G1, bad(t, w, d), t, w), vb=(1, G1, bad(t, w, d), t, w), vc=(0, G1, bad(t, w, d), t, w), vd=(0, G1, bad(t, w, d), t, w))
    for k, wr in (('ls', 1), ('lc', 0)): a, b_ = lay(d); cases[k] = (wr, GI, bad(a, b_, d), a, b_)
    for k, wr in (('l1', 1), ('l1c', 0)): a, b_ = one(d); cases[k] = (wr, dict(A=mA, i=i), bad(a, b_, d), a, b_)
    for k, wr in (('vv', 1), ('vk', 0)): cases[k] = (wr, G2, OR(bad(t, w, d), bad(t2, w2, w)), add(t, t2), w2)
    for k, wr in (('vs', 1), ('vt', 0)): a, b_ = lay(w); cases[k] = (wr, GVI, OR(bad(t, w, d), bad(a, b_, w)), add(t, a), b_)
    for k, wr in (('v1', 1), ('v1k', 0)): a, b_ = one(w); cases[k] = (wr, dict(G1, i=i), OR(bad(t, w, d), bad(a, b_, w)), add(t, a), b_)
    nested = dict(vv=(t2, w2), vk=(t2, w2), vs=lay(w), vt=lay(w), v1=one(w), v1k=one(w))
    def part(c, name):
        h = H(c, ['views.cpp'])
        wr, g, no, st, sz = cases[name]
        W = 'include/cnn_from_scratch/Matrix/SubMatrixView.h '
        def go(ent, given, facts, rule, tag='', **k):
            return Raw(c, h, 'drv::%s_%s' % (name, ent), list(facts), given, W + name + '_' + ent, rule, tag='%s_%s%s' % (name, ent, tag), **k)
        RX = 'a view is refused (size exception) exactly when its window is not inside'
        if name in nested:
            outer = win(t, w, d); inner = win(*nested[name], w)
            R = go('make', g, outer + inner, RX); R.throws(ZERO, None, 'accepted inside')
            for k, q in enumerate(outer):
                if q.const() is None: R = go('make', g, [-1 - q], RX, ' outer %d' % k); R.throws(ONE, SZ, 'refused when not %s >= 0' % show(q))
            for k, q in enumerate(inner):
                if q.const() is None: R = go('make', g, outer + [-1 - q], RX, ' inner %d' % k); R.throws(ONE, SZ, 'refused when not %s >= 0' % show(q))
        else: R = go('make', g, (), RX); R.throws(no, SZ, 'refused exactly outside')
        # inside from here on: the window facts
        if name[0] == 'v' and name in ('vv', 'vk', 'vs', 'vt', 'v1', 'v1k'):
            ok = win(t, w, d) + (win(t2, w2, w) if name in ('vv', 'vk') else win((i,), (m if name in ('vs', 'vt') else ONE,), (w[2],)))
        elif name[0] == 'l': ok = win((i,), (m if name in ('ls', 'lc') else ONE,), (d[2],))
        else: ok = win(t, w, d)
        ins = ok + inside(p, sz)
        fl = flat(add(st, p), d)
        RU = 'value-flow summary over the stored vector: position p of the view is element start+p'
        R = go('dim', g, ok, RU); R.throws(ZERO, None, 'accepted'); R.dim(sz, what='shape')
        R = go('size', g, ok, RU); R.scalar(None, sz[0] * sz[1] * sz[2], 'element count')
        gp = dict(g, p=D3(p)); g3 = dict(g, x=p[0], y=p[1], z=p[2])
        for e, gg in (('read', gp), ('read3', g3), ('at', gp), ('cread', gp), ('cread3', g3), ('cat', gp), ('copy', gp)):
            R = go(e, gg, ins, RU); R.throws(ZERO, None, 'accepted'); R.scalar(None, A(fl), 'element')
        out = 1 - AND(*[ge0(P(q)) for q in inside(p, sz)])
        for e in ('at', 'cat') + (('wat',) if wr else ()):
            R = go(e, dict(gp, s=s) if e == 'wat' else gp, ok, 'checked access outside the window raises an exception', ' any', skip=('vector index',)); R.throws(out, 'std::exception', 'refused exactly outside')
        if wr:
            for e, gg in (('write', gp), ('write3', g3), ('wat', gp)):
                R = go(e, dict(gg, s=s), ins, RU); R.throws(ZERO, None, 'accepted'); R.store('A', d, lambda q: ite(eq(q, fl), s, A(q)), 'matrix after writing')
    def win(t, w, d): return [P(x) for x in list(t) + list(w)] + [P(e) - a - b_ for a, b_, e in zip(t, w, d)]
    def copies(c):
        h = H(c, ['views.cpp'])
        W = 'src/SimpleMatrix.tpp subMatCopy'
        R = Run(c, h, 'drv::sc_make', [], dict(G1, A=mat('A', d)), W, 'a window that is not inside is refused'); R.throws(bad(t, w, d), SZ, 'refused exactly outside')
        R = Run(c, h, 'drv::sc_copy', win(t, w, d), dict(A=mat('A', d), t=D3(t), w=D3(w)), W, 'the copy holds the elements of the window'); R.throws(ZERO, None, 'accepted')
        R.matrix(None, w, lambda x, y, q: app('A', [t[0] + x, t[1] + y, t[2] + q]), 'copy')
    par(c, [lambda c, k=k: part(c, k) for k in cases] + [copies])
