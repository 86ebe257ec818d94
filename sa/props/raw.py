"""Raw representation of matrices, views and position objects (no contracts) and the obligations over it."""
from .common import *
def D3(p): return VObj('my_cnn::Dim<3>', dict(zip('xyz', [P(q) for q in p])))
def D2(p): return VObj('my_cnn::Dim<2>', dict(zip('xyz', [P(q) for q in list(p) + [0] * (3 - len(p))])))
V1 = P(BV(1))
def rmat(name, dims, cls=DM, isint=False, et=None):
    dims = [P(d) for d in dims]
    return VObj(cls, {'dim_': D3(dims), 'values_': VVec(1, dims[0] * dims[1] * dims[2], app(name, [V1], isint), et)})
def flat(p, d): return P(p[0]) + P(p[1]) * d[0] + P(p[2]) * d[0] * d[1]
def inside(p, d): return [q for a, b_ in zip(p, d) for q in (P(a), P(b_) - 1 - a)]
class Raw(Run):
    def __init__(self, *a, **k):
        k.setdefault('limit', 60); k.setdefault('contract', False)
        super().__init__(*a, **k)
    def val(self, name=None):
        v, F = self.result(name)
        return v, F
    def dim(self, want, name=None, what=None, cond=None):
        what = what or 'coordinates'
        if self.err: return self.add(what, 'undecided', self.err)
        try: v, F = self.result(name)
        except (Unsupported, KeyError, AttributeError) as e: return self.add(what, 'undecided', str(e))
        if not isinstance(v, VObj) or 'x' not in v.f: return self.add(what, 'undecided', 'not a triple: %r' % v)
        for cc, w in zip('xyz', want):
            if w is not None: self.eq('%s: %s' % (what, cc), v.f[cc], w, F, cond)
    def store(self, name, dims, body=None, what=None, facts=()):
        """matrix `name` (None: result) reports dims and stores exactly that many elements; body(i) the i-th stored value"""
        what = what or ('result' if name is None else name)
        if self.err: return self.add(what, 'undecided', self.err)
        try: v, F = self.result(name)
        except (Unsupported, KeyError, AttributeError) as e: return self.add(what, 'undecided', str(e))
        facts = [self.s(x) for x in facts]
        F = F.add_ge(*facts) if facts else F
        try:
            d = [v.f['dim_'].f[q] for q in 'xyz']; vec = v.f['values_']
        except (KeyError, AttributeError): return self.add(what, 'undecided', 'unknown representation %r' % (v,))
        if not isinstance(vec, VVec): return self.add(what, 'undecided', 'values are %s' % type(vec).__name__)
        for i, w in enumerate(dims): self.eq('%s: reported size %s' % (what, 'xyz'[i]), d[i], w, F)
        self.eq('%s: stores as many elements as it reports' % what, vec.size, d[0] * d[1] * d[2], self.F.add_ge(*facts) if facts else self.F, cond=self.out.ret()[2])
        if body is not None:
            w = body(V1)
            if w is None: return
            self.eq('%s: every stored element' % what, vec.body, w, F.add_ge(V1, vec.size - 1 - V1))
