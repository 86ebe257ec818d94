"""Damaged or truncated text is never accepted; a failing write is reported."""
from .serial import *
from .c26 import Files, NL, labels
RULE = 'the reader is interpreted over the written text with one place damaged or cut off; it must not report success'
def places(items, path=()):
    """every literal and value of a text with the loop variables around it"""
    for i, x in enumerate(items):
        if x[0] == 'rep': yield from places(x[3], path + ((i, x),))
        else: yield path, i, x
def replace(items, path, i, f):
    """items with the one at (path, i) replaced by the list f(x)"""
    if path:
        j, r = path[0]
        r = items[j]
        return items[:j] + (('rep', r[1], r[2], replace(r[3], path[1:], i, f)),) + items[j + 1:]
    return items[:i] + tuple(f(items[i])) + items[i + 1:]
def run(c):
    h = H(c, ['serial.cpp'] + SRC)
    fx, fy, fz, nf, s, m, ix, iy, iz = map(n, 'fx fy fz nf s m ix iy iz'.split())
    px, py, sx, sy = map(n, 'px py sx sy'.split())
    kg = dict(fx=fx, fy=fy, fz=fz, nf=nf, s=s, W=mat('W', (fx, fy, fz * nf)), bi=mat('b', (nf, 1, 1)))
    kf = [fx - 1, fy - 1, fz - 1, nf - 1, s - 1]
    N = ix * iy * iz
    cg = dict(X0=mat('X0', (ix, iy, iz)), m=m, W=mat('W', (m, N, 1)), bi=mat('b', (m, 1, 1)))
    cf = [m - 1, ix - 1, iy - 1, iz - 1]
    pg = dict(px=px, py=py, sx=sx, sy=sy); pf = [px - 1, py - 1, sx - 1, sy - 1]
    ENT = [('matrix', [fx - 1, fy - 1, fz - 1], dict(a=mat('W', (fx, fy, fz)), b=mat('V', (ix, iy, iz))), 'src/SimpleMatrix.tpp deserialize'),
           ('kernel', kf, kg, 'src/Layers/Kernel.cpp deserialize'), ('connected', cf, cg, 'src/Layers/ConnectedLayer.cpp deserialize'),
           ('softmax', [], dict(m=m), 'src/Layers/Softmax.cpp deserialize')] + \
          [('pooling_' + k, pf, pg, 'src/Layers/Pooling.cpp deserialize') for k in ('MAX', 'MIN', 'AVG')] + \
          [('activation_' + k, [], {}, 'src/Layers/Activation.cpp deserialize') for k in ('RELU', 'SIGMOID', 'LINEAR', 'TANGENT', 'LEAKY_RELU')]
    SK = ('vector', 'matrix', 'array', 'optional', 'division')
    def one(c, ent, facts, given, where, damage, extra, what):
        R = Run(c, h, 'drv::' + ent, list(facts) + list(extra), dict(given), where, RULE, setup=Text(damage).setup, skip=SK, limit=60)
        accepted(R, what)
    def accepted(R, what):
        if R.err: return R.add(what, 'undecided', R.err)
        if not R.out.rets(): return R.add(what, 'proved', 'never returns normally')
        try: heap, val, live = R.out.ret()
        except Unsupported as e: return R.add(what, 'undecided', str(e))
        if not isinstance(val, Poly): return R.add(what, 'undecided', 'result is %s' % type(val).__name__)
        R.eq(what, val * live, ZERO)
    def text(ent, facts, given):
        """the text as written"""
        t = Text(lambda items: ())
        with_ = Run(Quiet(c), h, 'drv::' + ent, list(facts), dict(given), '', RULE, setup=t.setup, skip=('',), limit=60)
        return t.items
    def layer(c, ent, facts, given, where):
        items = text(ent, facts, given)
        if items is None: return c.add('%s: damaged text' % ent, RULE, where, 'undecided', 'text not summarised')
        k = 0
        for path, i, x in places(items):
            k += 1
            last = not path and i == len(items) - 1
            if x[0] == 'val':
                vb = [(v, bd) for q, rp in path for v, bd in zip(rp[1], rp[2])]
                ds = [n('d%d' % j) for j in range(len(vb))]
                extra = [subst(bd, dict(zip([w for w, _ in vb], map(P, ds)))) - 1 - d for d, (v, bd) in zip(ds, vb)]
                w = str(show(x[1]) if isinstance(x[1], Poly) else x[1])[:60]
                w = re.sub(r'_\d+', '', w)
                def brk(it, path=path, i=i, ds=ds):
                    vs = []; cur = it
                    for q, rp in path: vs += cur[q][1]; cur = cur[q][3]
                    cond = ONE
                    for d, v in zip(ds, vs): cond = cond * eq(P(v), P(d))
                    return replace(it, path, i, lambda y: [y[:6] + (cond,)])
                one(c, ent, facts, given, where, brk, extra, 'a text whose value %s is unreadable is refused (place %d)' % (w, k))
                continue
            if x[0] != 'lit': continue
            if path: continue
            t = x[1]
            if last: t = t[:-15]
            # every word of a literal text
            for mm in re.finditer(r'[A-Za-z]+', t):
                a, b_ = mm.span()
                def dmg(it, i=i, a=a, b_=b_): return it[:i] + (('lit', it[i][1][:a] + '~' + it[i][1][a + 1:]),) + it[i + 1:]
                one(c, ent, facts, given, where, dmg, [], 'a text with a wrong tag instead of "%s" is refused (place %d)' % (mm.group(), k))
                def cut(it, i=i, a=a, b_=b_): return it[:i] + (('lit', it[i][1][:b_ - 1]),)
                one(c, ent, facts, given, where, cut, [], 'a text that ends inside "%s" is refused (place %d)' % (mm.group(), k))
            if not last and i + 1 < len(items):
                def cut2(it, i=i): return it[:i + 1]
                one(c, ent, facts, given, where, cut2, [], 'a text that ends before its value is refused (place %d)' % k)
    par(c, files(accepted) + [lambda c, a=a: layer(c, *a) for a in ENT])
SK2 = ('vector', 'matrix', 'array', 'optional', 'division')
def files(accepted):
    S = ['files.cpp'] + SRC + ['src/timerConfig.cpp']
    hs = {}
    def H2(c):
        if 0 not in hs: hs[0] = H(c, S)
        return hs[0]
    x, y, zz, m = map(n, 'x y z m'.split())
    F = [x - 1, y - 1, zz - 1, m - 1]; given = dict(x=x, y=y, z=zz, m=m)
    SAVE_ = 'src/ModelDescription.tpp saveModel'; LOAD = 'src/ModelDescription.tpp loadModel'
    def claim(R, what, good):
        """success may only be reported if `good`"""
        if R.err: return R.add(what, 'undecided', R.err)
        if not R.out.rets(): return R.add(what, 'proved', 'never returns normally')
        try: heap, val, live = R.out.ret()
        except Unsupported as e: return R.add(what, 'undecided', str(e))
        if not isinstance(val, Poly): return R.add(what, 'undecided', 'result is %s' % type(val).__name__)
        try: g = good(heap)
        except (Unsupported, KeyError, AttributeError) as e: return R.add(what, 'undecided', str(e))
        R.eq(what, val * live * (1 - g), ZERO)
    def save(c, nm, t):
        op, fl = sym('opens', True, True, True), sym('fails', True, True, True)
        fs = Files(opens=op, fails=fl)
        R = Run(c, H2(c), 'drv::%s_%s' % (nm, t), F, dict(given, labels=labels(t)), SAVE_, RULE, setup=fs.setup, skip=SK2, limit=100)
        claim(R, 'saving reports success only if the file was opened', lambda heap: op)
        claim(R, 'saving reports success only if every write reached the file', lambda heap: 1 - fl)
        claim(R, 'nothing is left to be written when success is reported', lambda heap: 1 - R.load(fs.root, heap).f['pend'])
        if nm.startswith('unwritable'): claim(R, 'a model with a layer that cannot be written is not reported as saved', lambda heap: ZERO)
    def load(c, nm, t):
        fs = Files()
        R0 = Run(Quiet(c), H2(c), 'drv::%s_%s' % (nm, t), F, dict(given, labels=labels(t)), '', RULE, setup=fs.setup, skip=('',), limit=100)
        items = fs.items
        if R0.err or items is None: return c.add('%s_%s: damaged file' % (nm, t), RULE, LOAD, 'undecided', 'file not summarised: %s' % R0.err)
        def one(dmg, what, extra=(), opens=ONE):
            R = Run(c, H2(c), 'drv::load_' + t, F + [P(NL) - 1] + list(extra), {}, LOAD, RULE, setup=Files(dmg, opens, text=items).setup, skip=SK2, limit=60, tag='%s_%s' % (nm, t))
            accepted(R, what)
        one(None, 'a file that cannot be opened is refused', opens=ZERO)
        k = 0
        soft = 'Softmax'
        done = False
        for path, i, q in places(items):
            k += 1
            if q[0] == 'val':
                vb = [(v, bd) for _, rp in path for v, bd in zip(rp[1], rp[2])]
                ds = [n('d%d' % j) for j in range(len(vb))]
                extra = [subst(bd, dict(zip([w for w, _ in vb], map(P, ds)))) - 1 - d for d, (v, bd) in zip(ds, vb)]
                w = re.sub(r'_\d+', '', str(show(q[1]) if isinstance(q[1], Poly) else q[1])[:60])
                def brk(it, path=path, i=i, ds=ds):
                    vs = []; cur = it
                    for j, rp in path: vs += cur[j][1]; cur = cur[j][3]
                    cond = ONE
                    for d, v in zip(ds, vs): cond = cond * eq(P(v), P(d))
                    return replace(it, path, i, lambda y: [(y + (ZERO,) * 6)[:6] + (cond,)])
                before = items[i - 1][1] if not path and i and items[i - 1][0] == 'lit' else ''
                # the size in the softmax section repeats the number of labels, which follows and is the one that counts
                if re.search(r'Softmax\n[A-Za-z ]*$|\($', before): continue      # nor does the number in a separating line carry anything
                one(brk, 'a file whose value %s is unreadable or where it ends is refused (place %d)' % (w, k), extra)
                continue
            if q[0] != 'lit' or path: continue
            t_ = q[1]
            for mm in re.finditer(r'[A-Za-z]+', t_):
                a, b_ = mm.span()
                def dmg(it, i=i, a=a): return it[:i] + (('lit', it[i][1][:a] + '~' + it[i][1][a + 1:]),) + it[i + 1:]
                if not re.search(r'Softmax\n[A-Za-z ]*$', t_[:a]): one(dmg, 'a file with a wrong tag instead of "%s" is refused (place %d)' % (mm.group(), k))
                def cut(it, i=i, b_=b_): return it[:i] + (('lit', it[i][1][:b_ - 1]),)
                one(cut, 'a file that ends inside "%s" is refused (place %d)' % (mm.group(), k))
            if i + 1 < len(items):
                one(lambda it, i=i: it[:i + 1], 'a file that ends here is refused (place %d)' % k)
        one(lambda it: (), 'an empty file is refused')
    NM = ['save_kapc', 'save_ck', 'save_softmax', 'save_none']
    return [lambda c, q=q, t=t: load(c, q, t) for q in NM for t in 'si'] + \
           [lambda c, q=q, t=t: save(c, q, t) for q in NM + ['unwritable_first', 'unwritable_last'] for t in 'si']
class Quiet:
    def __init__(self, c): self.c = c
    def add(self, *a, **k): pass
    def count(self, *a, **k): pass
    obl = []
