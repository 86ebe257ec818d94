"""Showing a matrix as an image: which cells are printed, in which order, with which colour codes."""
import re
from fractions import Fraction
from .common import *
RULE = 'symbolic text of standard output: loops around each cell, colour codes as functions of the pixel'
W = 'include/cnn_from_scratch/imageUtil.h printImage'
def template(items):
    """literal text with one \\0 per value, and the values"""
    t = ''; vals = []
    for it in items:
        if it[0] == 'lit': t += it[1]
        elif it[0] == 'val': t += '\0'; vals.append(it)
        else: return None, None
    return t, vals
def both(v): return [wrap('u8', fn('trunc', v)), fn('trunc', v)]
def value(p, at, u):
    """the number a term denotes for given atoms; u stands for a quotient by zero"""
    t = Fraction(0)
    for m, k in P(p).t.items():
        r = Fraction(k)
        for a, q in m:
            v = atom_value(a, at, u)
            r *= u if q < 0 and v == 0 else v ** q
        t += r
    return t
def atom_value(a, at, u):
    k = a.k
    if k in ('sym', 'app'):
        if a.a[0] not in at: raise Unsupported('value of ' + show_atom(a))
        return Fraction(at[a.a[0]])
    if k == 'ge': return Fraction(value(a.a[0], at, u) >= 0)
    if k == 'eq': return Fraction(value(a.a[0], at, u) == 0)
    if k == 'pinv':
        v = value(a.a[0], at, u)
        return u if v == 0 else 1 / v
    if k == 'wrap' and a.a[0][0] == 'u': return Fraction(value(a.a[1], at, u) % 2 ** int(a.a[0][1:]))
    if k == 'fn' and a.a[0] == 'trunc': return Fraction(int(value(a.a[1][0], at, u)))
    if k == 'fn' and a.a[0] == 'inf': return u
    raise Unsupported('value of ' + show_atom(a))
US = [Fraction(1, 1000), Fraction(-37, 100), Fraction(12345), Fraction(-777)]
def run(c):
    h = H(c, ['image.cpp'])
    x, y = n('x'), n('y')
    def job(c, ent, cls, zz):
        isint = cls in ('int', 'unsigned char'); lo, hi = (z('lo'), z('hi')) if isint else (r('lo'), r('hi'))
        st = {}
        def setup(I):
            st['out'] = I.globals['lib', 'std::cout'] = I.newroot(I.lib_global('std::cout', None), 'std::cout')
            for q in ('std::cerr', 'std::clog'): I.globals['lib', q] = I.newroot(I.lib_global(q, None), q)
            def pf(I, fd, obj, args):
                a = [I.load(q) if isinstance(q, LV) else q for q in args]
                f = a[0]; f = f.parts[0] if isinstance(f, VStr) and len(f.parts) == 1 and isinstance(f.parts[0], str) else '' if isinstance(f, VStr) and not f.parts else None
                if f is None: raise Unsupported('printf with a computed format')
                items = []; k = 1
                for s in re.split(r'(%%|%(?:hh|h)?[a-z])', f):
                    if s == '%%': items.append(('lit', '%'))
                    elif s.startswith('%'):
                        if s not in ('%d', '%i', '%u', '%hhu', '%hu') or k >= len(a) or not isinstance(a[k], Poly): raise Unsupported('printf ' + s)
                        items.append(('val', a[k], 'int', ZERO, P(6), sym('default format'))); k += 1
                    elif s: items.append(('lit', s))
                v = I.load(st['out'])
                I.store(st['out'], VObj(v.cls, {**v.f, 'seq': VSeq(v.f['seq'].items + tuple(items))}))
                return ZERO
            for q in ('printf', 'std::printf'): I.hooks[q] = pf
            # the extreme values are the subject of C11
            for q, s in (('min', lo), ('max', hi)): I.hooks['my_cnn::' + q] = lambda I, fd, obj, args, s=s: s
        A = lambda a, b_, k: app('A', [P(a), P(b_), P(k)], isint)
        R = Run(c, h, 'drv::' + ent, [x - 1, y - 1], dict(a=VMat('my_cnn::SimpleMatrix<%s>' % cls, (P(x), P(y), P(zz)), A(X0, Y0, Z0))), W, RULE, tag='%s, depth %d' % (ent, zz), setup=setup, skip=('division',))
        R.throws(ZERO, None, 'showing an image does not throw')
        if R.err: return R.add('text', 'undecided', R.err)
        try: heap, val, live = R.out.ret()
        except Unsupported as e: return R.add('text', 'undecided', str(e))
        F = R.F
        try: R.matrix('a', [x, y, P(zz)], A, 'the image is unchanged')
        except KeyError: pass
        items = heap[st['out'].root].f['seq'].items
        rows = [i for i in items if i[0] == 'rep']
        if len(rows) != 1 or any(i[0] != 'lit' for i in items if i is not rows[0]) or len(rows[0][1]) != 1: return R.add('one line per row', 'undecided' if items else 'refuted', 'text: %d parts' % len(items))
        (xv,), (xb,) = rows[0][1], rows[0][2]
        R.eq('one line per row, in order', xb, x, F)
        cells = [i for i in rows[0][3] if i[0] == 'rep']
        if len(cells) != 1 or len(cells[0][1]) != 1: return R.add('one cell per pixel', 'undecided' if cells else 'refuted', '%d groups of cells per row' % len(cells))
        k = rows[0][3].index(cells[0])
        (yv,), (yb,) = cells[0][1], cells[0][2]
        G = F.add_ge(P(xv), x - 1 - P(xv))
        R.eq('one cell per pixel of the row, in order', yb, y, G)
        before, v0 = template(rows[0][3][:k]); after, v1 = template(rows[0][3][k + 1:])
        if before is None or after is None or v0 or v1: return R.add('line end', 'undecided', 'values outside the cells')
        R.add('a line ends after its cells, without colour', 'proved' if before.count('\n') == 0 and after.count('\n') == 1 and re.search('\x1b\\[0?m', after) else 'refuted', repr((before, after)))
        t, vals = template(cells[0][3])
        if t is None: return R.add('colour codes', 'undecided', 'cell of a form that is not known')
        R.add('a cell sets the background to three codes and is blank', 'proved' if re.fullmatch('(\x1b\\[0?m)?\x1b\\[48;2;\0;\0;\0m +(\x1b\\[0?m)?', t) else 'refuted', repr(t))
        if len(vals) != 3: return
        G = G.add_ge(P(yv), y - 1 - P(yv))
        def le(a, b_):
            nonlocal G
            G = G.add_ge(P(b_) - P(a))
        M = P(255) if isint else ite(ge0(hi - 1), hi, ONE)
        def points(what, it, want, ps):
            """the code at single values of the pixel and the extremes"""
            if has_unknown(it[1]): return
            for at in ps:
                try: g, w = value(it[1], at, US[1]), value(want, at, US[1])
                except (Unsupported, ZeroDivisionError, OverflowError): return
                if g != w: return R.add(what, 'refuted', 'for %s: %s, expected %s' % (at, g, w))
            R.add(what, 'proved', '%d points' % len(ps))
        for i, it in enumerate(vals):
            e = A(xv, yv, i if zz == 3 else 0)
            if cls == 'unsigned char': le(0, e); le(e, 255); le(0, lo); le(lo, 255)
            if not isint: le(e, hi)
            if zz == 3:
                le(0, e); v = 255 * e * inv(M)
                R.eq('code %d is the component scaled to 255, at most 255' % i, it[1], both(ite(ge0(255 - v), v, P(255))), G)
                points('code %d at chosen values' % i, it, both(ite(ge0(255 - v), v, P(255)))[0], [{'A': e_, 'hi': h_, 'lo': 0} for h_ in (1, 2, 255, 1000) for e_ in (0, 1, 2, 3, 100, 254, 255, 256, 300, 1000) if e_ <= (255 if cls == 'unsigned char' else 1000 if isint else h_)])
            else:
                le(lo, e); le(lo, hi)
                if cls == 'int': le(lo, 255)
                cases = [('', M, G)] if isint else [(' (largest value at least 1)', hi, G.assume(ge0(hi - 1))), (' (largest value below 1)', ONE, G.assume(lt(hi, ONE)))]
                for tag, m, K in cases:
                    d = 255 * (1 - (m - e) * inv(m - lo))
                    K = K.assume(lt(lo, m))
                    R.eq('code %d runs from the smallest value to the largest%s' % (i, tag), it[1], both(ite(ge0(255 - d), d, P(255))), K)
                # an image of one value, the largest there is, is fully bright
                for q in ((255,) if isint else (1, 2)):
                    what = 'code %d of an image which is %d everywhere' % (i, q)
                    try:
                        got = value(it[1], {'lo': q, 'hi': q, 'A': q}, US[0])
                        # a quotient of zeros does not show at the value itself; next to it, it does
                        dep = {value(it[1], {'lo': q, 'hi': q, 'A': q + d}, u) for u in US for d in (1,)}
                        R.add(what, 'proved' if got == 255 and len(dep) == 1 else 'refuted', 'computed %s, expected 255' % got if len(dep) == 1 else 'divides by the range of the image, which is zero: %s' % show(it[1])[:600])
                    except Unsupported as e_: R.add(what, 'undecided', str(e_))
    jobs = [(e, cl, d) for e, cl in (('image_d', 'double'), ('image_f', 'float'), ('image_i', 'int'), ('image_u', 'unsigned char')) for d in (1, 2, 3)]
    par(c, [lambda c, j=j: job(c, *j) for j in jobs])
