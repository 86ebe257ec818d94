"""The MNIST reader over symbolic files."""
from .common import *
RULE = 'the reader is interpreted over two symbolic files (header, size, every byte arbitrary)'
IMG, LAB = 'images', 'labels'
N, hh, ww = map(n, 'N h w'.split())
LI, LL = n('imagefile'), n('labelfile')
HEAD = {IMG: [2051, N, hh, ww], LAB: [2049, N]}
HINT.update(imagefile=(100, 90), labelfile=(40, 30))
FACTS = [hh - 1, ww - 1, LI - 16, LL - 8]
class Files:
    """two binary files of symbolic size and content; names: parameter names of the entry"""
    def __init__(self, img=IMG, lab=LAB): self.names = {img: IMG, lab: LAB}
    def setup(self, I):
        def code(v): return I.str_code(v) if isinstance(v, VStr) else None
        self.I = I
        def attach(I, obj, args):
            f = I.peek(args[0]); cd = code(f)
            st = I.load(obj)
            which = [w for q, w in self.names.items() if cd == code(I.load0[q])] if hasattr(I, 'load0') else []
            if not which: raise Unsupported('unknown file')
            L = self.s({IMG: LI, LAB: LL}[which[0]])
            I.store(obj, VObj(st.cls, {**st.f, 'name': VStr([which[0]]), 'len': L, 'open': ONE, 'bad': ZERO}))
        I.vhooks['open_file'] = attach
        def ctor(I, ty, args):
            s = I.new_stream(ty['qn']); lv = I.newroot(VObj('stream', {**s.f, 'open': ZERO}), 'binary')
            if args: attach(I, lv, args)
            return I.load(lv)
        for q in ('std::basic_fstream', 'std::basic_ifstream'): I.chooks[q] = ctor
        def byte(I, name, p):
            w = ''.join(name.parts); cp = p.const()
            if cp is not None and cp < 4 * len(HEAD[w]):
                v = self.s(P(HEAD[w][int(cp) // 4])); i = 3 - int(cp) % 4      # most significant byte first
                return I.to_bytes(v, 4)[i]
            return app('byte of the %s file' % w[:-1], [p], True, False, True)
        I.vhooks['file_byte'] = byte
        I.hooks['std::filesystem::exists'] = lambda I, fd, obj, args: ONE
    def s(self, p): return subst(P(p), self.I.inst) if self.I.inst else P(p)
def run(c):
    h = H(c, ['mnist.cpp', 'src/MNISTReader.cpp'])
    k, idx, idx2 = map(n, 'k idx idx2'.split())
    W = 'src/MNISTReader.cpp'
    def job(c, ent, at, given, before=(), complete=False):
        f = Files()
        facts = FACTS + ([LI - 16 - N * hh * ww, LL - 8 - N] if complete else [])       # sequences of unknown length: over complete files
        R = Run(c, h, 'drv::' + ent, facts, given, W, RULE, setup=f.setup, skip=('vector', 'matrix', 'array', 'optional', 'division'))
        if R.err: return R.add('image', 'undecided', R.err)
        # every image up to the last one asked for must be inside the file
        seqs = [at] + list(before)
        bad = ZERO
        for q in seqs: bad = OR(bad, ge(q, N) if complete else OR(ge(q, N), OR(lt(LI, 16 + (P(q) + 1) * hh * ww), lt(LL, 9 + P(q)))))
        R.throws(bad, None, 'an exception exactly when the image or its label is not in the files')
        px = lambda x, y: app('byte of the image file', [16 + P(at) * hh * ww + x * ww + y], True, False, True)
        try: heap, val, live = R.out.ret()
        except Unsupported as e: return R.add('image', 'undecided', str(e))
        R.imgs = (heap, val, live)
        G = R.F.assume(1 - bad)
        if not isinstance(val, VObj) or not isinstance(val.f.get('data'), VMat): return R.add('image', 'undecided', str(val)[:200])
        d = val.f['data']
        for q, a, w in zip(('rows', 'columns', 'slices'), d.dim, (hh, ww, ONE)): R.eq('number of %s' % q, a, w, G)
        X_, Y_ = n('row'), n('col')
        G2 = G.add_ge(X_, R.s(hh - 1 - X_)).add_ge(Y_, R.s(ww - 1 - Y_))
        R.eq('every pixel is (v - 128)/255 of its place in the file', subst(d.body, {BX: X_, BY: Y_, BZ: ZERO}), (px(X_, Y_) - 128) * inv(P(255)), G2)
        R.eq('the label is the one of the same index', val.f['label'], app('byte of the label file', [8 + P(at)], True, False, True), G)
        R.scalar('at', P(at) + 1, 'the reader continues after this image', cond=1 - bad)
    jobs = [lambda c: job(c, 'first', ZERO, {}), lambda c: job(c, 'after', k, dict(k=k), (), True), lambda c: job(c, 'random', idx, dict(idx=idx)),
            lambda c: job(c, 'random_twice', idx, dict(idx=idx, idx2=idx2), [idx2]), lambda c: job(c, 'random_next', idx + 1, dict(idx=idx)), lambda c: job(c, 'random_after', idx + 1 + k, dict(idx=idx, k=k), (), True)]
    jobs.append(lambda c: job(c, 'random_recover', idx, dict(idx=idx, idx2=idx2), (), True))
    def count(c):
        f = Files(); R = Run(c, h, 'drv::count', [hh - 1, ww - 1, LI - 16, LL - 8], {}, W, RULE, setup=f.setup, skip=('vector', 'matrix', 'array', 'optional', 'division'))
        if R.err: return R.add('count', 'undecided', R.err)
        R.throws(ZERO); R.eq('the number of images is the one in the header', R.out.ret()[1], N)
    jobs.append(count)
    par(c, jobs)
