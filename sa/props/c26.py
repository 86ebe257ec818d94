"""A loaded model has the saved model's layers and labels."""
from .serial import *
RULE = 'the model reader is interpreted over the symbolic file the model writer produces'
CLS = dict(k='my_cnn::Kernel', p='my_cnn::Pooling', c='my_cnn::ConnectedLayer', a='my_cnn::Activation')
def shared(lv):
    """a stream object standing for something outside the program"""
    r = VRef(lv); r.shared = True; return r
NL = n('nl'); HINT['nl'] = (17, 2)
def labels(t): return VVec(1, NL, VStr([('sym', app('label', [P(BV(1))], True))]) if t == 's' else app('label', [P(BV(1))], True), None)
class Files:
    """files as texts shared by the streams opened on them; `opens`: whether opening works, `fails`: whether the operating
    system reports a failing write, which shows when the stream is flushed"""
    def __init__(self, damage=None, opens=ONE, fails=None, text=None): self.damage = damage; self.items = text; self.opens = P(opens); self.fails = fails
    def setup(self, I):
        self.root = None
        def state(o): return {'open': o, 'bad': 1 - o, **({'fails': P(self.fails), 'pend': ZERO} if self.fails is not None else {})}
        def out(I, ty, args):
            s = I.new_stream(ty['qn'])
            self.root = I.newroot(VObj('stream', {**s.f, **state(self.opens)}), 'file')
            if args is None: I.upd(self.root, open=ZERO, bad=ZERO)
            return shared(self.root)
        def inp(I, ty, args):
            s = I.new_stream(ty['qn'])
            if self.root is not None: self.items = I.text_of(self.root, I.load(self.root))[1]
            it = self.items
            if self.damage: it = self.damage(it)
            lv = I.newroot(VObj('stream', {**s.f, **state(self.opens), 'in': I.set_text(it)}), 'file_in')
            if args is None: I.upd(lv, open=ZERO, bad=ZERO)
            return shared(lv)
        def op(I, obj, args=()):
            st = I.load(obj)
            if st.f['open'].const() != 0: raise Unsupported('stream opened again')
            I.upd(obj, open=self.opens, bad=OR(st.f['bad'], 1 - self.opens))
        I.vhooks['open_file'] = op
        I.chooks['std::basic_ofstream'] = out; I.chooks['std::basic_ifstream'] = inp
        def stored(I, fd, obj, args):
            self.items = I.text_of(self.root, I.load(self.root))[1]; return VOID
        I.hooks['drv::stored'] = stored
def run(c):
    h = H(c, ['files.cpp'] + SRC + ['src/timerConfig.cpp'])
    x, y, zz, m = map(n, 'x y z m'.split())
    def case(c, nm, t):
        R = Run(c, h, 'drv::%s_%s' % (nm, t), [x - 1, y - 1, zz - 1, m - 1], dict(x=x, y=y, z=zz, m=m, labels=labels(t)), 'src/ModelDescription.tpp saveModel/loadModel', RULE, setup=Files().setup, skip=('vector', 'matrix', 'array', 'optional', 'division'), limit=100)
        R.throws(ZERO, None, 'nothing is thrown')
        R.scalar('saved', ONE, 'saving succeeds'); R.scalar('loaded', ONE, 'loading succeeds')
        if R.err: return
        v, F = R.result()
        heap, val, live = R.out.ret()
        want = [CLS[q] for q in nm.rstrip('n')] if nm not in ('none', 'softmax') else []
        if not nm.endswith('n') and nm not in ('none',) : want.append('my_cnn::Softmax')
        try: ls, lab = v.f['layers'], v.f['output_labels']
        except (KeyError, AttributeError): return R.add('loaded model', 'undecided', 'unknown representation')
        R.eq('number of layers', ls.size, P(len(want)), F)
        got = []
        for i, w in enumerate(want):
            q = vsubst(ls.body, {BV(ls.h): P(i)})
            if not isinstance(q, VPtr) or q.lv is None: R.add('layer %d' % i, 'undecided', 'pointer is %s' % q); continue
            try: o = R.load(q.lv, heap)
            except Unsupported as e: R.add('layer %d' % i, 'undecided', str(e)); continue
            got.append(o)
            R.add('layer %d is a %s' % (i, w.split('::')[-1]), 'proved' if o.cls == w else 'refuted', o.cls)
        if len({id(o) for o in got}) != len(got): R.add('layers are distinct', 'refuted', '')
        if not isinstance(lab, VVec): return R.add('labels', 'undecided', str(lab))
        R.eq('number of labels', lab.size, R.s(P(NL)), F)
        b_ = R.I.str_code(lab.body) if t == 's' else lab.body
        if b_ is None or not isinstance(b_, Poly): return R.add('labels', 'undecided', str(lab.body))
        i = n('li'); G = F.add_ge(i, R.s(P(NL)) - 1 - i)
        R.eq('every label, in order', subst(b_, {BV(lab.h): P(i)}), app('label', [P(i)], True), G)
    CASES = ['none', 'softmax', 'k', 'p', 'c', 'a', 'kn', 'pn', 'cn', 'an', 'kapa', 'ckpk', 'aac', 'ppcckn', 'kapcakpaca']
    par(c, [lambda c, q=q, t=t: case(c, q, t) for q in CASES for t in 'si'])
