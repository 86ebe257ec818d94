"""Formatting a matrix: what is written, where, and the state the stream is left in."""
from .common import *
from ..loops import leaves
RULE = 'effect summary of the printing functions: symbolic text of the given stream, state of every stream before and after'
def flat(items, loops=()):
    """every piece of the text with the loops around it: (loops, ('lit', s) | ('val', v) | ('sign', cond, s, t))"""
    for x in items:
        if x[0] == 'rep': yield from flat(x[3], loops + tuple(zip(x[1], x[2])))
        else: yield loops, x
def run(c):
    h = H(c, ['print.cpp'])
    x, y, zz, k, m = map(n, 'x y z k m'.split())
    A = lambda *a: app('A', a)
    def job(c, ent, cls, order, dims, at, where, extra):
        ds = {'x': dims[0], 'y': dims[1], 'z': dims[2]}
        st = {}
        def setup(I):
            for q in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'std::printf', 'std::puts', 'std::putchar'):
                I.hooks[q] = lambda I, fd, obj, args, q=q: (I.oblige('contract: nothing else is written (%s)' % q, ZERO), ZERO)[1]
            for q in ('std::cout', 'std::cerr', 'std::clog'): I.globals['lib', q] = I.newroot(I.lib_global(q, None), q)
            s = I.new_stream('std::ostream')
            st['v'] = VObj('stream', {**s.f, 'prec': n('precision'), 'fill': n('fill'), 'flags': sym('flags', True)})
            st['lv'] = I.newroot(st['v'], 'os')
            I.given['os'] = st['lv']
        given = dict(a=VMat('my_cnn::SimpleMatrix<%s>' % cls, (P(x), P(y), P(zz)), app('A', [X0, Y0, Z0], cls == 'int')))
        if extra: given.update(k=k, m=m)
        R = Run(c, h, 'drv::' + ent, extra, given, where, RULE, setup=setup, skip=('vector', 'matrix', 'array', 'division'))
        R.throws(ZERO, None, 'printing does not throw')
        if R.err: return R.add('text', 'undecided', R.err)
        try: heap, val, live = R.out.ret()
        except Unsupported as e: return R.add('text', 'undecided', str(e))
        F = R.F
        v1 = heap[st['lv'].root]
        for fld, what in (('flags', 'format flags'), ('prec', 'precision'), ('fill', 'fill character'), ('bad', 'error state')):
            R.eq('%s of the stream are as before' % what, v1.f[fld], st['v'].f[fld], F)
        for rt, v in heap.items():
            if not (isinstance(v, VObj) and v.cls == 'stream' and str(rt[0]).startswith('std::')): continue
            name = rt[0]
            touched = [q for q, w in (('text', not v.f['seq'].items), ('flags', v.f['flags'] == sym(name + '.flags')), ('precision', v.f['prec'] == sym(name + '.prec')), ('fill', v.f['fill'] == sym(name + '.fill')), ('width', v.f['width'] == ZERO)) if not w]
            R.add('%s is not written or reconfigured' % name, 'refuted' if touched else 'proved', ', '.join(touched))
        vals = []
        lits = []
        for loops, it in flat(v1.f['seq'].items):
            if it[0] == 'val' and it[2] in ('char', 'signed char', 'unsigned char'): lits.append((loops, ('cond', eq(it[1], 45), (('lit', '-'),), (('lit', ' '),))))
            elif it[0] == 'val': vals.append((loops, it))
            elif it[0] in ('cond', 'lit'): lits.append((loops, it))
            else: return R.add('every element, in row order', 'undecided', 'text item ' + it[0])
        body = [(l, it) for l, it in vals if l]
        if ent.startswith('serialize'):
            head = [it for l, it in vals if not l]
            for q, it in zip('xyz', head): R.eq('size %s is written' % q, it[1], ds[q], F)
            R.add('the three sizes are written once', 'proved' if len(head) == 3 else 'refuted', '%d values' % len(head))
        if len(body) != 1: return R.add('every element, in row order', 'refuted' if not body else 'undecided', '%d values per element' % len(body))
        loops, it = body[0]
        if len(loops) != 3: return R.add('every element, in row order', 'undecided', '%d loops' % len(loops))
        for (v, bd), q in zip(loops, order): R.eq('loop over %s: every index once, in order' % q, bd, ds[q], F)
        pos = {q: P(v) for (v, bd), q in zip(loops, order)}
        G = F
        for v, bd in loops: G = G.add_ge(P(v), bd - 1 - P(v))
        el = A_at = app('A', [R.s(P(t)) if R.inst else P(t) for t in at(pos['x'], pos['y'], pos['z'])], cls == 'int')
        got = it[1]
        sign = [i for l, i in lits if i[0] == 'cond' and l == loops]
        try:
            ok = G.equal(got, el)
            if not ok and sign:
                # magnitude after a sign
                i = sign[0]
                tx = lambda its: ''.join(q[1] for q in its if q[0] == 'lit')
                ok = '-' in tx(i[2]) and '-' not in tx(i[3]) and G.equal(i[1], lt(el, 0)) and G.equal(i[1] * (got + el) + (1 - i[1]) * (got - el), ZERO)
                if not ok: got = got * (1 - 2 * i[1])
        except Unsupported as e: return R.add('every element, in row order', 'undecided', str(e))
        if ok: R.add('every element, in row order', 'proved', show(got)[:200])
        else: R.eq('every element, in row order', got, el, G)
    PW, SW = 'include/cnn_from_scratch/Matrix/SimpleMatrix.h operator<<', 'src/SimpleMatrix.tpp serialize'
    D = (x, y, zz); same = lambda a, b_, q: (a, b_, q)
    vf = [k, m - 1, zz - k - m]
    jobs = [('print_d', 'double', 'xzy', D, same, PW, []), ('print_f', 'float', 'xzy', D, same, PW, []), ('print_i', 'int', 'xzy', D, same, PW, []),
            ('print_view', 'double', 'xzy', (x, y, m), lambda a, b_, q: (a, b_, q + k), PW, vf), ('print_constview', 'int', 'xzy', (x, y, m), lambda a, b_, q: (a, b_, q + k), PW, vf),
            ('serialize_d', 'double', 'zxy', D, same, SW, []), ('serialize_f', 'float', 'zxy', D, same, SW, []), ('serialize_i', 'int', 'zxy', D, same, SW, [])]
    par(c, [lambda c, j=j: job(c, *j) for j in jobs])
