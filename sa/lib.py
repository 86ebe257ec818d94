"""Models of the standard library (containers, algorithms, strings, streams) and the element-level contracts of
SimpleMatrix / MatrixIterator, each contract being verified from the implementation by the raw-mode lemmas."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *

MAT = 'my_cnn::SimpleMatrix'
MIT = 'my_cnn::MatrixIterator'
STREAMS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_ostream', 'std::basic_istream', 'std::basic_iostream')
SMART = ('std::shared_ptr', 'std::unique_ptr')
SCAL = {'double': dict(k='float', w=64, s='double'), 'float': dict(k='float', w=32, s='float'), 'long double': dict(k='float', w=80, s='long double'),
        'int': dict(k='int', w=32, s='int'), 'long': dict(k='int', w=64, s='long'), 'unsigned char': dict(k='uint', w=8, s='unsigned char'), 'signed char': dict(k='int', w=8, s='signed char'),
        'char': dict(k='int', w=8, s='char'), 'unsigned int': dict(k='uint', w=32, s='unsigned int'), 'unsigned long': dict(k='uint', w=64, s='unsigned long'), 'bool': dict(k='bool', w=8, s='bool'),
        'short': dict(k='int', w=16, s='short'), 'unsigned short': dict(k='uint', w=16, s='unsigned short')}

def anyval(v): return v

class Lib:
    # ------------------------------------------------------------------ values of library types
    def new_stream(self, kind='std::basic_stringstream', items=()):
        self.n += 1
        return VObj('stream', {'seq': VSeq(items), 'flags': sym('default format'), 'prec': P(6), 'width': ZERO, 'fill': P(32), **self.in_state()})
    def in_state(self, open=ONE): return {'in': VOpq('in', ()), 'pos': ZERO, 'nl': ZERO, 'sp': ZERO, 'bad': ZERO, 'eof': ZERO, 'open': open, 'gc': ZERO}
    def lib_default(self, ty, tu, init, args):
        qn = ty['qn']
        if qn in self.chooks: return self.chooks[qn](self, ty, None)
        if qn == 'std::vector':
            et = self.targ(ty, tu); h = 1 + self.height(et, tu)
            body = self.default(et, tu, True, None, tuple(args) + (P(BV(h)),))
            if isinstance(body, VStr) and not body.parts: body = VStr([('sym', P(str_id('')))])
            return VVec(h, ZERO, body, (tu, ty['ta'][0]['t']))
        if qn == 'std::array':
            return VList([self.default(self.targ(ty, tu), tu, init, None, args) for _ in range(self.targ(ty, tu, 1))])
        if qn == 'std::basic_string': return VStr([''])
        if qn == 'std::optional': 
            et = self.targ(ty, tu)
            try: v = self.default(et, tu, True, None, args)
            except Unsupported: v = VOpq('none')
            return VOpt(ZERO, v)
        if qn in STREAMS: return self.new_stream()
        if qn in SMART: return VPtr(None)
        if qn.startswith('std::') or qn.startswith('__gnu'): return VOpq('lib:' + qn, ())
        return None
    def lib_global(self, name, ty):
        if name == 'std::nullopt': return VOpq('nullopt')
        if name in ('std::cout', 'std::cerr', 'std::clog'): return VObj('stream', {'seq': VSeq(()), 'flags': sym(name + '.flags'), 'prec': sym(name + '.prec'), 'width': ZERO, 'fill': sym(name + '.fill'), **self.in_state()})
        return VOpq('glob:' + name, ())
    def elem_ty(self, lv):
        """element type of the matrix or vector an lvalue path points into, or None"""
        if not isinstance(lv, LV) or not lv.path: return None
        last = lv.path[-1]
        if last[0] == 'm':
            m = re.match(r'^my_cnn::SimpleMatrix<(.*)>$', getattr(self.load(LV(lv.root, lv.path[:-1])), 'cls', '') or '')
            return SCAL.get(m.group(1)) if m else None
        if last[0] == 'e':
            v = self.load(LV(lv.root, lv.path[:-1]))
            if isinstance(v, VVec):
                if isinstance(v.et, tuple) and v.et and v.et[0] == 'elem':
                    m = re.match(r'^my_cnn::SimpleMatrix<(.*)>$', v.et[1]); return SCAL.get(m.group(1)) if m else None
                if isinstance(v.et, tuple) and len(v.et) == 2: return self.p.type(*v.et)
        return None
    def to_type(self, v, ty):
        if ty is None or not isinstance(v, Poly): return v
        k = ty['k']
        if k == 'bool': return as_bool(v)
        if k in ('int', 'uint'):
            if not v.isint(): v = self.simp(fn('trunc', v))
            return self.wrapt(v, ty)
        return v
    def conv_store(self, lv, v):
        if isinstance(lv, VIte):
            ty = None
        else: ty = self.elem_ty(lv)
        self.store(lv, self.to_type(v, ty))
    # ------------------------------------------------------------------ strings
    def str_code(self, v):
        if isinstance(v, VStr):
            if all(isinstance(p, str) for p in v.parts): return P(str_id(''.join(v.parts)))
            if len(v.parts) == 1 and v.parts[0][0] == 'sym': return v.parts[0][1]
            if len(v.parts) == 1 and v.parts[0][0] == 'num': return app('numstr', [v.parts[0][1]], True)
        if isinstance(v, VIte):
            a = self.str_code(v.a); b = self.str_code(v.b)
            if a is not None and b is not None: return ite(v.c, a, b)
        return None
    def strv(self, v):
        if isinstance(v, LV) or self.is_lvite(v): v = self.load(v)
        return v
    def str_cat(self, a, b):
        a = self.strv(a); b = self.strv(b)
        if isinstance(a, VIte): return vite(a.c, self.str_cat(a.a, b), self.str_cat(a.b, b))
        if isinstance(b, VIte): return vite(b.c, self.str_cat(a, b.a), self.str_cat(a, b.b))
        pa = a.parts if isinstance(a, VStr) else ((chr(int(a.const())),) if isinstance(a, Poly) and a.const() is not None else ('?',))
        pb = b.parts if isinstance(b, VStr) else ((chr(int(b.const())),) if isinstance(b, Poly) and b.const() is not None else ('?',))
        return VStr(tuple(pa) + tuple(pb))
    # ------------------------------------------------------------------ matrices: contracts
    def mat_dims(self, lv):
        v = self.load(lv) if isinstance(lv, (LV, VIte)) else lv
        if isinstance(v, VRef): v = self.load(v.lv)
        if isinstance(v, VMat): return v.dim
        if isinstance(v, VObj) and 'dim_' in v.f:
            d = v.f['dim_']
            return tuple(d.f[c] for c in 'xyz')
        if isinstance(v, VObj):
            r = self.method(v.cls, 'dim', 0)
            if r is not None:
                d = self.call(r[0], r[1], lv if isinstance(lv, LV) else self.newroot(v), [])
                if isinstance(d, LV): d = self.load(d)
                return tuple(d.f[c] for c in 'xyz')
        raise Unsupported('shape of %s' % type(v).__name__)
    def rec_of(self, cls):
        c = getattr(self.p, '_byname', None)
        if c is None:
            c = {}
            for ti, d in enumerate(self.p.tus):
                for ri, r in enumerate(d['recs']):
                    if r and r.get('s'): c.setdefault(r['s'].replace('const ', ''), []).append((ti, ri))
            self.p._byname = c
        return c.get(cls.replace('const ', ''), [])
    def method(self, cls, name, nargs, pred=None):
        """(tu, fid) of a method with a body"""
        cands = []
        for ti, ri in self.rec_of(cls):
            cands += self._methods(ti, ri, name, nargs, pred)
        if self.frames:
            t = self.frames[-1].tu
            for c in cands:
                if c[0] == t: return c
        return cands[0] if cands else None
    def _methods(self, ti, ri, name, nargs, pred):
        out = []
        r = self.p.tus[ti]['recs'][ri]
        for m in r.get('methods', []):
            f = self.p.fd(ti, m)
            if f['n'] == name and len(f['pt']) == nargs and self.p.body(ti, m) and (pred is None or pred(ti, f)): out.append((ti, m))
        for b in r.get('bases', []):
            if 'rec' in b: out += self._methods(ti, b['rec'], name, nargs, pred)
        return out
    def dimv(self, a):
        v = self.load(a) if isinstance(a, (LV, VIte)) and not isinstance(a, Poly) else a
        if isinstance(v, VIte): return tuple(ite(v.c, x, y) for x, y in zip(self.dimv(v.a), self.dimv(v.b)))
        if isinstance(v, VObj) and 'x' in v.f: return tuple(v.f[c] for c in 'xyz')
        raise Unsupported('index triple')
    def poly(self, a):
        v = self.load(a) if isinstance(a, LV) or self.is_lvite(a) else a
        if not isinstance(v, Poly): raise Unsupported('number expected')
        return v
    def mit_deref(self, v):
        o = self.load(v.lv)
        if isinstance(o, VRef): return self.mit_deref(VMIt(o.lv, v.pos, v.idx))
        d = self.mat_dims(v.lv)
        idx = v.idx if v.idx is not None else self.unflat(v.pos, d)
        if isinstance(o, VMat): return v.lv.sub(('m',) + tuple(idx))
        if isinstance(o, VObj):
            def pr(ti, f):
                t = self.p.strip(ti, f['pt'][0])
                return t['k'] == 'rec' and t['qn'].endswith('::Dim')
            m = self.method(o.cls, 'operator()', 1, lambda ti, f: pr(ti, f) and not f.get('const')) or self.method(o.cls, 'operator()', 1, pr)
            if m is None: raise Unsupported('element access of ' + o.cls)
            return self.call(m[0], m[1], v.lv, [self.newroot(self.dimobj(idx))])
        raise Unsupported('iterator over %s' % type(o).__name__)
    def contract_ctor(self, qn, fd, ty, ttu, args, e):
        if qn == MAT and self.contract is True:
            pt = fd['pt']
            if len(args) == 1 and fd.get('ctor') in ('copy', 'move'):
                a = args[0]
                v = self.load(a) if isinstance(a, (LV, VIte)) else a
                if fd['ctor'] == 'move' and isinstance(a, LV): self.moved_from(a, v)
                return v
            if not args: return self.default(ty, ttu)
            if len(args) >= 1 and isinstance(self.peek(args[0]), VObj) and self.peek(args[0]).cls.startswith('my_cnn::Dim'):
                d = self.dimv(args[0])
                if len(args) == 1: val = ZERO
                else: val = self.peek(args[1])
                if isinstance(val, VVec): return None      # interpreted: allocation, then list assignment
                et = self.targ(ty, ttu)
                if et['k'] == 'rec' and len(args) == 1: val = self.default(et, ttu, True)
                self.oblige('matrix size is not negative', AND(*[ge0(x) for x in d]))
                return VMat(self.cname(ty), tuple(self.simp(x) for x in d), val if isinstance(val, Val) else P(val))
        if qn == MIT:
            if len(args) == 2:
                parent = args[0]
                if isinstance(parent, VIte): return None
                if not isinstance(parent, LV): parent = self.newroot(parent)
                pv = self.load(parent)
                if isinstance(pv, VRef): parent = pv.lv
                idx = self.dimv(args[1]); dim = self.mat_dims(parent)
                return VMIt(parent, self.simp(self.flatpos(idx, dim)))
            if len(args) == 1:
                a = args[0]
                return self.load(a) if isinstance(a, LV) else a
        if self.contract is True and qn.endswith('::Dim') and len(args) == 1 and fd.get('ctor') in ('copy', 'move'):
            a = args[0]
            v = self.load(a) if isinstance(a, (LV, VIte)) else a
            if fd['ctor'] == 'move' and isinstance(a, LV): self.moved_from(a, v, ty, ttu)
            return v
        return None
    def peek(self, a): return self.load(a) if isinstance(a, LV) or self.is_lvite(a) else a
    def contract_call(self, tu, fd, obj, args, e):
        n = fd['n']
        ct = self.p.type(tu, fd['ct']) if fd.get('ct') is not None else None
        cq = ct['qn'] if ct else ''
        if cq == MAT and obj is not None and self.contract is True:
            o = self.load(obj) if not isinstance(obj, VIte) else None
            if isinstance(o, VRef): obj = o.lv; o = self.load(obj)
            if isinstance(o, VMat):
                if n == 'operator()':
                    if len(args) == 1: idx = self.dimv(args[0])
                    else: idx = tuple(self.poly(a) for a in args)
                    idx = tuple(idx) + (ZERO,) * (3 - len(idx))
                    return obj.sub(('m',) + tuple(self.simp(x) for x in idx))
                if n == 'operator[]':
                    return obj.sub(('m',) + tuple(self.unflat(self.poly(args[0]), o.dim)))
                if n == 'resize' and len(args) == 3:
                    nd = tuple(self.simp(self.poly(a)) for a in args)
                    self.store(obj, self.resized(o, nd)); return VOID
                if n == 'operator=' and len(args) == 1:
                    if fd.get('asg') in ('copy', 'move'):
                        a = args[0]; v = self.peek(a)
                        if isinstance(v, VMat):
                            if fd['asg'] == 'move' and isinstance(a, LV) and a != obj: self.moved_from(a, v)
                            self.store(obj, VMat(o.cls, v.dim, v.body)); return obj
                    else:
                        v = self.peek(args[0])
                        if isinstance(v, VMat) and v.cls != o.cls:
                            et = re.match(r'^my_cnn::SimpleMatrix<(.*)>$', o.cls)
                            t = SCAL.get(et.group(1)) if et else None
                            self.store(obj, VMat(o.cls, v.dim, self.to_type(v.body, t))); return obj
        if cq == MIT and obj is not None:
            it = self.load(obj)
            if isinstance(it, VIte):
                raise Unsupported('conditional iterator')
            if isinstance(it, VMIt):
                if n in ('operator*', 'operator->'):
                    r = self.mit_deref(it)
                    return r if n == 'operator*' else (VPtr(r) if isinstance(r, LV) else r)
                if n == 'operator++':
                    nw = VMIt(it.lv, it.pos + 1); self.store(obj, nw)
                    return it if args else obj
                if n == 'operator--':
                    nw = VMIt(it.lv, it.pos - 1); self.store(obj, nw)
                    return it if args else obj
                if n == 'idx':
                    d = self.mat_dims(it.lv)
                    return self.newroot(self.dimobj(it.idx if it.idx is not None else self.unflat(it.pos, d)))
                if n in ('operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                    b = self.peek(args[0])
                    if isinstance(b, VMIt):
                        if n == 'operator-': return it.pos - b.pos
                        r = self.arith(n[8:], it.pos, b.pos, None)
                        return r
                if n == 'operator=':
                    v = self.peek(args[0]); self.store(obj, v); return obj
                if n in ('operator+', 'operator+='):
                    r = VMIt(it.lv, it.pos + self.poly(args[0]))
                    if n == 'operator+=': self.store(obj, r); return obj
                    return r
        if self.contract is True and cq.endswith('::Dim') and n == 'operator=' and fd.get('asg') in ('copy', 'move'):
            v = self.peek(args[0])
            if fd['asg'] == 'move' and isinstance(args[0], LV) and args[0] != obj: self.moved_from(args[0], v, ct, tu)
            self.store(obj, v); return obj
        return NotImplemented
    def resized(self, o, nd):
        """std::vector growth semantics on the column-major values: old flat prefix kept, zero beyond"""
        if all(self.same(a, b) for a, b in zip(nd, o.dim)): return o
        zero = ZERO
        if isinstance(o.body, VObj): zero = vmap(o.body, lambda p, b, q: ZERO)
        if any(d.const() == 0 for d in o.dim): return VMat(o.cls, nd, zero)
        F = self.st.facts; f2 = F
        for b, d in zip(MB, nd): f2 = f2.add_ge(P(b), d - 1 - P(b))
        self.st.facts = f2
        try:
            pos = self.flatpos([P(b) for b in MB], nd)
            idx = self.unflat(pos, o.dim)
            c = lt(pos, o.dim[0] * o.dim[1] * o.dim[2])
            body = vite(c, vsubst(o.body, dict(zip(MB, idx))), zero)
        finally: self.st.facts = F
        return VMat(o.cls, nd, body)
    # ------------------------------------------------------------------ iterators
    def it_deref(self, v):
        if isinstance(v, LV): v = self.load(v)
        if isinstance(v, (VVIt, VMIt, VPtr)): return self.deref(v)
        if isinstance(v, VIte): return VIte(v.c, self.it_deref(v.a), self.it_deref(v.b))
        if isinstance(v, VObj):
            m = self.method(v.cls, 'operator*', 0)
            if m: return self.call(m[0], m[1], self.newroot(v), [])
        raise Unsupported('iterator %s' % type(v).__name__)
    def it_inc(self, lv, d=1):
        v = self.load(lv)
        if isinstance(v, VVIt): self.store(lv, VVIt(v.lv, v.pos + d)); return
        if isinstance(v, VMIt): self.store(lv, VMIt(v.lv, v.pos + d)); return
        if isinstance(v, VObj) and d == 1:
            m = self.method(v.cls, 'operator++', 0)
            if m: self.call(m[0], m[1], lv, []); return
        raise Unsupported('iterator increment')
    def it_ne(self, a, b):
        if isinstance(a, LV): a = self.load(a)
        if isinstance(b, LV): b = self.load(b)
        if isinstance(a, (VVIt, VMIt)) and isinstance(b, (VVIt, VMIt)): return 1 - eq(a.pos, b.pos)
        if isinstance(a, VObj):
            m = self.method(a.cls, 'operator!=', 1)
            if m: return self.poly(self.call(m[0], m[1], self.newroot(a), [self.newroot(b)]))
            m = self.method(a.cls, 'operator==', 1)
            if m: return 1 - self.poly(self.call(m[0], m[1], self.newroot(a), [self.newroot(b)]))
        raise Unsupported('iterator comparison')
    def it_add(self, v, n):
        if isinstance(v, VVIt): return VVIt(v.lv, v.pos + n)
        if isinstance(v, VMIt): return VMIt(v.lv, v.pos + n)
        raise Unsupported('iterator arithmetic')
    def it_pos(self, v):
        if isinstance(v, (VVIt, VMIt)): return v.pos
        raise Unsupported('iterator position')
    def for_range(self, first, last, body):
        it = self.newroot(first, 'it')
        self.loop(lambda: self.it_ne(it, last), lambda: body(it), lambda: self.it_inc(it))
        return it
    def val_of(self, x):
        return self.load(x) if isinstance(x, LV) or self.is_lvite(x) else x
    def vec_begin(self, obj): return VVIt(obj, ZERO)
    # ------------------------------------------------------------------ constructors
    def lib_ctor(self, tu, fd, ty, ttu, args, e):
        qn = ty['qn']
        if qn in self.chooks: return self.chooks[qn](self, ty, args)
        if qn == 'std::vector':
            d = self.lib_default(ty, ttu, True, ())
            vals = [a for a in args]
            if not vals: return d
            et = self.targ(ty, ttu)
            p0 = self.peek(vals[0])
            if isinstance(p0, VVec): return p0
            if isinstance(p0, VOpq) and p0.kind == 'ilist':
                r = d
                return self.vec_from(d, [x for x in p0.d])
            if isinstance(p0, Poly):
                if len(vals) >= 2:
                    x = self.peek(vals[1])
                    if isinstance(x, (Poly, Val)) and not (isinstance(x, VOpq) and x.kind.startswith('lib:')):
                        if isinstance(x, Poly): x = self.to_type(x, et)
                        return VVec(d.h, p0, x, d.et)
                if et['k'] == 'rec' and et.get('rec') is not None: body = self.default_ctor(et, ttu)
                else: body = self.default(et, ttu, True, None, ())
                if isinstance(body, VStr): body = d.body
                self.oblige('vector size is not negative', ge0(p0))
                return VVec(d.h, p0, body, d.et)
            if isinstance(p0, (VVIt, VMIt)) and len(vals) >= 2:
                last = self.peek(vals[1])
                n = self.it_pos(last) - self.it_pos(p0)
                lv = self.newroot(VVec(d.h, n, d.body, d.et))
                out = self.newroot(VVIt(lv, ZERO))
                self.for_range(p0, last, lambda it: (self.conv_store(self.it_deref(out), self.val_of(self.it_deref(it))), self.it_inc(out)))
                return self.load(lv)
        if qn == 'std::initializer_list': return self.peek(args[0]) if args else VOpq('ilist', ())
        if qn == 'std::array' and not args: return self.lib_default(ty, ttu, False, ())
        if qn == 'std::basic_string':
            if not args: return VStr([''])
            p0 = self.peek(args[0])
            if isinstance(p0, VStr): return p0
            if isinstance(p0, VObj) and p0.cls == 'text': return p0
            if isinstance(p0, VIte): return p0
            if isinstance(p0, Poly) and len(args) >= 2:
                ch = self.peek(args[1]); k = self.simp(p0).const()
                if isinstance(ch, Poly) and ch.const() is not None and k is not None and 0 <= k < 200: return VStr([chr(int(ch.const())) * int(k)])
                return VStr([('buf', p0)])
            return VStr([('opaque', sym('str%d' % self.n))])
        if qn == 'std::optional':
            if not args: return self.lib_default(ty, ttu, True, ())
            p0 = self.peek(args[0])
            if isinstance(p0, VOpq) and p0.kind == 'nullopt': return self.lib_default(ty, ttu, True, ())
            if isinstance(p0, VOpt): return p0
            return VOpt(ONE, self.to_type(p0, self.targ(ty, ttu)) if isinstance(p0, Poly) else p0)
        if qn in STREAMS: return self.open_stream(tu, fd, ty, args)
        if qn in SMART:
            if not args: return VPtr(None)
            p0 = self.peek(args[0])
            return p0
        if qn.startswith('std::') or fd['qn'].startswith('std::'):
            return VOpq('lib:' + qn, ())
        raise Unsupported('constructor of ' + ty['s'])
    def open_stream(self, tu, fd, ty, args): return self.new_stream(ty['qn'])
    def vec_from(self, d, xs):
        et = self.p.type(*d.et) if isinstance(d.et, tuple) and len(d.et) == 2 and not isinstance(d.et[0], str) else None
        body = d.body
        b = P(BV(d.h))
        for i, x in reversed(list(enumerate(xs))):
            if isinstance(x, Poly): x = self.to_type(x, et)
            body = vite(eq(b, i), x, body) if i < len(xs) - 1 else x
        return VVec(d.h, P(len(xs)), body, d.et)
    # ------------------------------------------------------------------ functions
    def lib_call(self, tu, fd, obj, args, e):
        qn = fd['qn']; n = fd['n']
        if obj is None or not fd.get('cls'):
            f = getattr(self, 'fn_' + n, None) if (qn.startswith('std::') or '::' not in qn or qn.startswith('__gnu')) else None
            if f is not None:
                r = f(tu, fd, args, e)
                if r is not NotImplemented: return r
            if n.startswith('operator'): return self.lib_operator(tu, fd, args, e)
            if qn.startswith('std::chrono::'): return VOpq('lib:std::chrono::duration')
            raise Unsupported('library function ' + qn)
        v = self.load(obj) if isinstance(obj, LV) else obj
        if isinstance(v, VRef): obj = v.lv; v = self.load(obj)
        if isinstance(v, VIte):
            if isinstance(obj, LV): raise Unsupported('method %s on a conditional object' % n)
        nm = {VVec: 'vec', VList: 'arr', VStr: 'str', VOpt: 'opt', VPtr: 'ptr', VVIt: 'vit', VMIt: 'vit', VOpq: 'opq'}.get(type(v))
        if isinstance(v, VObj) and v.cls == 'stream': nm = 'stm'
        if isinstance(v, VObj) and v.cls == 'text': nm = 'str'
        if isinstance(v, VObj) and v.cls == 'lock' and 'lock' in self.vhooks: return self.vhooks['lock'](self, fd, obj, v, args)
        if isinstance(v, VObj) and v.cls == 'atomic': return self.atm_call(tu, fd, n, obj.sub(('f', 'v')), v.f['v'], args, e)
        if isinstance(v, VFun) and n == 'operator()': return self.invoke(v, args)
        if isinstance(v, Poly) and qn.startswith(('std::atomic', 'std::__atomic')): nm = 'atm'
        if nm is None: raise Unsupported('library method %s on %s' % (qn, type(v).__name__))
        f = getattr(self, nm + '_call')
        return f(tu, fd, n, obj, v, args, e)
    def lib_operator(self, tu, fd, args, e):
        op = fd['n'][8:].strip()
        if op == '""s' and isinstance(self.peek(args[0]), VStr): return self.peek(args[0])
        a = self.peek(args[0]); b = self.peek(args[1]) if len(args) > 1 else None
        if isinstance(a, VObj) and a.cls == 'stream':
            if op == '<<': return self.stream_out(tu, fd, args[0], a, b, self.p.strip(tu, fd['pt'][1]) if len(fd['pt']) > 1 else None)
            if op == '>>': return self.stream_in(tu, fd, args[0], a, args[1])
        if op == '+' and (isinstance(a, VStr) or isinstance(b, VStr) or isinstance(a, VObj) or isinstance(b, VObj)): return self.str_cat(a, b)
        if op in ('==', '!='):
            r = self.veq_term(a, b)
            return r if op == '==' else 1 - r
        if isinstance(a, (VVIt, VMIt)) and op in ('-', '+', '<', '>', '<=', '>='): return self.arith(op, a, b, None)
        if isinstance(b, (VVIt, VMIt)) and op == '+': return self.arith(op, b, a, None)
        if isinstance(a, VOpq) and 'chrono' in fd.get('qn', ''): return VOpq('lib:std::chrono::duration')
        raise Unsupported('library operator %s (%s) on %r' % (op, fd.get('qn'), a))
    def veq_term(self, a, b):
        if isinstance(a, VIte): return ite(a.c, self.veq_term(a.a, b), self.veq_term(a.b, b))
        if isinstance(b, VIte): return ite(b.c, self.veq_term(a, b.a), self.veq_term(a, b.b))
        if isinstance(a, Poly) and isinstance(b, Poly): return eq(a, b)
        if isinstance(a, VList) and isinstance(b, VList) and len(a.a) == len(b.a): return AND(*[self.veq_term(x, y) for x, y in zip(a.a, b.a)])
        if isinstance(a, (VVIt, VMIt)) and isinstance(b, (VVIt, VMIt)): return eq(a.pos, b.pos)
        if isinstance(a, VPtr) and isinstance(b, VPtr): return P(a.lv == b.lv)
        ca, cb = self.str_code(a), self.str_code(b)
        if ca is not None and cb is not None: return eq(ca, cb)
        if isinstance(a, VStr) and isinstance(b, VStr):
            r = self.parts_eq(list(a.parts), list(b.parts))
            if r is not None: return r
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            if isinstance(a, VOpq): a, b = b, a
            if isinstance(b, VOpq) and b.kind == 'nullopt': return 1 - a.has
            if isinstance(a, VOpt) and isinstance(b, VOpt): return ite(a.has, b.has * self.veq_term(a.val, b.val), 1 - b.has)
            if isinstance(a, VOpt): return a.has * self.veq_term(a.val, b)
            return b.has * self.veq_term(a, b.val)
        if isinstance(a, VObj) and isinstance(b, VObj) and a.f.keys() == b.f.keys(): return AND(*[self.veq_term(a.f[k], b.f[k]) for k in a.f])
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    def parts_eq(self, a, b):
        """equality of two concatenations (None: not known)"""
        def strip(a, b):
            while a and b:
                x, y = a[0], b[0]
                if isinstance(x, str) and isinstance(y, str):
                    k = min(len(x), len(y))
                    if x[:k] != y[:k]: return False
                    a[:1] = [x[k:]] if len(x) > k else []; b[:1] = [y[k:]] if len(y) > k else []; continue
                if x == y: a.pop(0); b.pop(0); continue
                break
            return True
        if not strip(a, b): return ZERO
        if not a and not b: return ONE
        if not a or not b:
            r = a or b
            return ZERO if any(isinstance(x, str) or x[0] == 'num' for x in r) else None
        for x, y in ((a[0], b[0]), (b[0], a[0])):
            if isinstance(x, str) and y[0] == 'num' and not (x[0].isdigit() or x[0] == '-'): return ZERO
        if len(a) == len(b) == 1 and a[0][0] == b[0][0] == 'num': return eq(a[0][1], b[0][1])
        # same structure around single numbers
        if len(a) == len(b) and all((isinstance(x, str) and x == y) or (not isinstance(x, str) and not isinstance(y, str) and x[0] == y[0] == 'num') for x, y in zip(a, b)):
            return AND(*[eq(x[1], y[1]) for x, y in zip(a, b) if not isinstance(x, str)])
        return None
    # identity-like
    def _id(self, tu, fd, args, e): return args[0]
    fn_move = fn_forward = fn_as_const = fn_ref = fn_cref = fn_move_if_noexcept = _id
    def fn_addressof(self, tu, fd, args, e): return VPtr(args[0])
    def fn_begin(self, tu, fd, args, e): return self.range_end(args[0], 'begin')
    def fn_end(self, tu, fd, args, e): return self.range_end(args[0], 'end')
    fn_cbegin = fn_begin; fn_cend = fn_end
    def range_end(self, a, which):
        v = self.peek(a)
        if not isinstance(a, LV): a = self.newroot(v)
        if isinstance(v, VVec): return VVIt(a, ZERO if which == 'begin' else v.size)
        if isinstance(v, VList): return VVIt(a, P(0 if which == 'begin' else len(v.a)))
        if isinstance(v, VMat):
            return VMIt(a, ZERO if which == 'begin' else v.dim[0] * v.dim[1] * v.dim[2])
        if isinstance(v, VObj):
            m = self.method(v.cls, which, 0)
            if m: return self.call(m[0], m[1], a, [])
        if isinstance(v, VOpq) and v.kind == 'ilist':
            return VVIt(self.newroot(VList(v.d)), P(0 if which == 'begin' else len(v.d)))
        raise Unsupported('range over %s' % type(v).__name__)
    def fn_distance(self, tu, fd, args, e):
        a, b = self.peek(args[0]), self.peek(args[1])
        if isinstance(a, VIte): return vite(a.c, self.fn_distance(tu, fd, [a.a, b], e), self.fn_distance(tu, fd, [a.b, b], e))
        if isinstance(b, VIte): return vite(b.c, self.fn_distance(tu, fd, [a, b.a], e), self.fn_distance(tu, fd, [a, b.b], e))
        if isinstance(a, VObj):
            m = self.method(a.cls, 'operator-', 1)
            if m: return self.poly(self.call(m[0], m[1], self.newroot(b), [self.newroot(a)]))
        return self.it_pos(b) - self.it_pos(a)
    def fn_next(self, tu, fd, args, e): return self.it_add(self.peek(args[0]), self.poly(args[1]) if len(args) > 1 else 1)
    def fn_prev(self, tu, fd, args, e): return self.it_add(self.peek(args[0]), -(self.poly(args[1]) if len(args) > 1 else P(1)))
    def fn_advance(self, tu, fd, args, e): self.store(args[0], self.it_add(self.load(args[0]), self.poly(args[1]))); return VOID
    # numbers
    def minmax(self, args, mx):
        vs = [self.peek(a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], VOpq) and vs[0].kind == 'ilist': vs = list(vs[0].d)
        if not all(isinstance(v, Poly) for v in vs) or len(vs) < 2: return NotImplemented
        r = vs[0]
        for v in vs[1:]: r = tmax(r, v) if mx else tmin(r, v)
        return self.newroot(self.simp(r))
    def fn_max(self, tu, fd, args, e): return self.minmax(args, True) if len(args) <= 2 else NotImplemented
    def fn_min(self, tu, fd, args, e): return self.minmax(args, False) if len(args) <= 2 else NotImplemented
    def fn_clamp(self, tu, fd, args, e):
        v, lo, hi = [self.poly(a) for a in args[:3]]
        return self.newroot(self.simp(ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))))
    def num_fn(name):
        def f(self, tu, fd, args, e):
            return self.simp(fn(name, *[self.poly(a) for a in args]))
        return f
    fn_exp = fn_expf = num_fn('exp'); fn_sqrt = fn_sqrtf = num_fn('sqrt'); fn_tanh = fn_tanhf = num_fn('tanh'); fn_log2 = num_fn('log2'); fn_log2f = num_fn('log2')
    fn_log = num_fn('log'); fn_ceil = num_fn('ceil'); fn_ceilf = num_fn('ceil'); fn_floor = num_fn('floor'); fn_floorf = num_fn('floor'); fn_trunc = num_fn('trunc')
    fn_sin = num_fn('sin'); fn_cos = num_fn('cos'); fn_cosh = num_fn('cosh'); fn_sinh = num_fn('sinh'); fn_log10 = num_fn('log10'); fn_rint = num_fn('rint')
    def fn_round(self, tu, fd, args, e):
        x = self.poly(args[0])
        if x.isint(): return x
        h = Poly({(): Fraction(1, 2)})
        return self.simp(ite(ge0(x), fn('floor', x + h), -fn('floor', h - x)))
    fn_roundf = fn_lround = fn_round
    fn_isnan = num_fn('isnan'); fn_isfinite = num_fn('isfinite'); fn_expm1 = num_fn('expm1'); fn_log1p = num_fn('log1p')
    def fn_abs(self, tu, fd, args, e):
        x = self.poly(args[0])
        rt = self.p.type(tu, fd['rt'])
        return self.simp(tabs(self.to_type(x, rt) if rt['k'] in ('int', 'uint') else x))
    fn_fabs = fn_fabsf = fn_labs = fn_abs
    def fn_pow(self, tu, fd, args, e):
        x, y = self.poly(args[0]), self.poly(args[1])
        c = y.const()
        if c in (0, 1, 2, 3, 4):
            r = ONE
            for _ in range(int(c)): r = r * x
            return r
        if c == Fraction(1, 2): return fn('sqrt', x)
        if c == -1: return inv(x)
        return fn('pow', x, y)
    def fn_fmax(self, tu, fd, args, e): return tmax(self.poly(args[0]), self.poly(args[1]))
    def fn_fmin(self, tu, fd, args, e): return tmin(self.poly(args[0]), self.poly(args[1]))
    def fn_hypot(self, tu, fd, args, e):
        x, y = self.poly(args[0]), self.poly(args[1]); return fn('sqrt', x * x + y * y)
    def fn_lowest(self, tu, fd, args, e):
        t = self.p.type(tu, fd['rt'])
        return self.limit(t, 'lowest')
    def limit(self, t, what):
        k = t['k']
        if k in ('int', 'uint'):
            w = t['w']
            lo, hi = ((-2 ** (w - 1), 2 ** (w - 1) - 1) if k == 'int' else (0, 2 ** w - 1))
            return P(hi if what == 'max' else lo)
        return P(mk('fn', (what + ':' + t['s'], ()), False))
    def fn_srand(self, tu, fd, args, e): return VOID
    def fn_rand(self, tu, fd, args, e):
        lvs = [P(v) for vs, bs in self.loopvars for v in vs]
        return app('rand@%s:%s' % (self.fr.fid, self.fr.line), lvs, True, False, True)
    def fn_time(self, tu, fd, args, e): return sym('time')
    def fn_now(self, tu, fd, args, e): return VOpq('lib:time', ())
    def fn_exists(self, tu, fd, args, e):
        v = self.peek(args[0]); c = self.str_code(v) if isinstance(v, VStr) else None
        return app('exists', [c], True, True, True) if c is not None else sym('?exists', True, True, True)
    def fn___assert_fail(self, tu, fd, args, e):
        self.die('abort', None, self.where())
    def fn_terminate(self, tu, fd, args, e): self.die('abort', None, self.where())
    fn_abort = fn_terminate
    def fn_to_string(self, tu, fd, args, e):
        p = self.poly(args[0]); c = p.const()
        return VStr([str(c)]) if c is not None and isinstance(c, int) else VStr([('num', p)])
    def fn_swap(self, tu, fd, args, e):
        a, b = self.load(args[0]), self.load(args[1]); self.store(args[0], b); self.store(args[1], a); return VOID
    def fn_exchange(self, tu, fd, args, e):
        a = self.load(args[0]); self.store(args[0], self.peek(args[1])); return a
    def fn_memset(self, tu, fd, args, e):
        p = self.peek(args[0])
        if isinstance(p, VVIt) and self.poly(args[1]).const() == 0:
            v = self.load(p.lv)
            if isinstance(v, VList): self.store(p.lv, VList([ZERO for _ in v.a])); return args[0]
        if isinstance(p, VPtr) and p.lv is not None and self.poly(args[1]).const() == 0:
            self.store(p.lv, vmap(self.load(p.lv), lambda q, b, w: ZERO)); return args[0]
        raise Unsupported('memset')
    def fn_invoke(self, tu, fd, args, e): return self.invoke(args[0], args[1:])
    def fn_make_pair(self, tu, fd, args, e): return VObj('pair', {'first': self.peek(args[0]), 'second': self.peek(args[1])})
    def fn_dynamic_pointer_cast(self, tu, fd, args, e): return self.peek(args[0])
    fn_static_pointer_cast = fn_dynamic_pointer_cast
    def fn_make_shared(self, tu, fd, args, e):
        rt = self.p.type(tu, fd['rt']); t = self.targ(rt, tu)
        raise Unsupported('make_shared')
    # algorithms
    def fn_fill(self, tu, fd, args, e):
        x = self.peek(args[2])
        self.for_range(self.peek(args[0]), self.peek(args[1]), lambda it: self.conv_store(self.it_deref(it), x)); return VOID
    def fn_reverse(self, tu, fd, args, e):
        f, l = self.peek(args[0]), self.peek(args[1])
        k = self.simp(self.it_pos(l) - self.it_pos(f)).const()
        if k is None: raise Unsupported('std::reverse of a range of unknown length')
        for i in range(int(k) // 2):
            a, b = self.it_deref(self.it_add(f, P(i))), self.it_deref(self.it_add(f, P(int(k) - 1 - i)))
            x, y = self.val_of(a), self.val_of(b)
            self.store(a, y); self.store(b, x)
        return VOID
    def fn_fill_n(self, tu, fd, args, e):
        f = self.peek(args[0]); x = self.peek(args[2]); l = self.it_add(f, self.poly(args[1]))
        self.for_range(f, l, lambda it: self.conv_store(self.it_deref(it), x)); return l
    def fn_copy(self, tu, fd, args, e):
        out = self.newroot(self.peek(args[2]))
        def body(it): self.conv_store(self.it_deref(out), self.val_of(self.it_deref(it))); self.it_inc(out)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(out)
    def fn_copy_n(self, tu, fd, args, e):
        f = self.peek(args[0]); return self.fn_copy(tu, fd, [f, self.it_add(f, self.poly(args[1])), args[2]], e)
    def fn_transform(self, tu, fd, args, e):
        if len(args) == 4:
            out = self.newroot(self.peek(args[2])); op = args[3]
            def body(it): self.conv_store(self.it_deref(out), self.val_of(self.invoke(op, [self.it_deref(it)]))); self.it_inc(out)
        else:
            sec = self.newroot(self.peek(args[2])); out = self.newroot(self.peek(args[3])); op = args[4]
            def body(it): self.conv_store(self.it_deref(out), self.val_of(self.invoke(op, [self.it_deref(it), self.it_deref(sec)]))); self.it_inc(out); self.it_inc(sec)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(out)
    def fn_for_each(self, tu, fd, args, e):
        op = args[2]
        self.for_range(self.peek(args[0]), self.peek(args[1]), lambda it: self.invoke(op, [self.it_deref(it)]))
        return self.peek(op)
    def fn_generate(self, tu, fd, args, e):
        op = args[2]
        self.for_range(self.peek(args[0]), self.peek(args[1]), lambda it: self.conv_store(self.it_deref(it), self.val_of(self.invoke(op, [])))); return VOID
    def fn_iota(self, tu, fd, args, e):
        acc = self.newroot(self.peek(args[2]))
        def body(it): self.conv_store(self.it_deref(it), self.load(acc)); self.store(acc, self.load(acc) + 1)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return VOID
    def fn_accumulate(self, tu, fd, args, e):
        t = self.p.strip(tu, fd['pt'][2])
        acc = self.newroot(self.peek(args[2]), 'acc')
        op = args[3] if len(args) > 3 else None
        def body(it):
            x = self.it_deref(it)
            r = self.val_of(self.invoke(op, [self.load(acc), x])) if op is not None else self.load(acc) + self.poly(x)
            self.store(acc, self.to_type(r, t))
        f = self.peek(args[0])
        self.for_range(f, self.peek(args[1]), body)
        et = None
        if isinstance(f, VMIt) and isinstance(f.lv, LV):
            try: et = self.elem_ty(f.lv.sub(('m', ZERO, ZERO, ZERO)))
            except Unsupported: pass
        r = self.load(acc)
        return self.narrowed(r) if self.narrowing and isinstance(r, Poly) and t['k'] == 'float' and t.get('w') == 32 and et is not None and et['k'] == 'float' and et.get('w') == 64 else r
    def narrowed(self, v):
        from .interp import narrow
        return self.simp(narrow(v))
    narrowing = False
    fn_reduce = fn_accumulate
    def fn_inner_product(self, tu, fd, args, e):
        t = self.p.strip(tu, fd['pt'][3])
        acc = self.newroot(self.peek(args[3]), 'acc'); sec = self.newroot(self.peek(args[2]))
        o1 = args[4] if len(args) > 4 else None; o2 = args[5] if len(args) > 5 else None
        def body(it):
            x = self.it_deref(it); y = self.it_deref(sec)
            p = self.val_of(self.invoke(o2, [x, y])) if o2 is not None else self.poly(x) * self.poly(y)
            r = self.val_of(self.invoke(o1, [self.load(acc), p])) if o1 is not None else self.load(acc) + p
            self.store(acc, self.to_type(r, t)); self.it_inc(sec)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body)
        return self.load(acc)
    def extreme(self, args, kind):
        f, l = self.peek(args[0]), self.peek(args[1])
        bi = self.newroot(f, 'best')
        if len(args) > 2: kind = self.order_of(args[2], kind)
        if isinstance(f, VMIt):
            d = tuple(self.simp(x) for x in self.mat_dims(f.lv))
            if f.pos.t or self.simp(l.pos - d[0] * d[1] * d[2]).t: raise Unsupported('partial range extreme')
            return VMIt(f.lv, *self.extreme_box(f, d, kind))
        if isinstance(f, VVIt):
            n = self.simp(l.pos - f.pos)
            v = fresh('k', 1)
            F = self.st.facts; self.st.facts = F.range(v, n)
            self.loopvars.append(([v], [n]))
            try: x = self.poly(self.it_deref(VVIt(f.lv, f.pos + P(v))))
            finally: self.st.facts = F; self.loopvars.pop()
            return VVIt(f.lv, f.pos + best([v], [n], x, kind, 0))
        raise Unsupported('extreme over %s' % type(f).__name__)
    def order_of(self, comp, kind):
        """the extreme found with an order of its own: which of <, <=, >, >= on numbers it is"""
        u, v = sym('order left', False), sym('order right', False)
        t = as_bool(self.poly(self.invoke(comp, [self.newroot(u, 'cmp'), self.newroot(v, 'cmp')])))
        other = {'max': 'min', 'min': 'max'}[kind]
        for f, k in ((lt, kind), (le, kind + 'last'), (gt, other), (ge, other + 'last')):
            if self.st.facts.equal(t, f(u, v)): return k
        raise Unsupported('custom comparison')
    def extreme_box(self, f, d, kind):
        live = [i for i in range(3) if d[i].const() != 1]
        vs = {i: fresh('xyz'[i], 1) for i in live}
        F = self.st.facts
        for i in live: self.st.facts = self.st.facts.range(vs[i], d[i])
        vl = [vs[i] for i in live]; dl = [d[i] for i in live]
        idx = tuple(P(vs[i]) if i in vs else ZERO for i in range(3))
        self.loopvars.append((vl, dl))
        try:
            fp = self.flatpos(idx, d)
            self.flat[fp] = (idx, d)
            x = self.val_of(self.mit_deref(VMIt(f.lv, fp, idx)))
            self.flat.pop(fp, None)
        finally: self.st.facts = F; self.loopvars.pop()
        if not isinstance(x, Poly): raise Unsupported('extreme of non-numbers')
        x = self.simp(x)
        if not live: return ZERO, (ZERO, ZERO, ZERO)
        pos = [best(vl, dl, x, kind, live.index(i)) if i in vs else ZERO for i in range(3)]
        return self.flatpos(pos, d), tuple(pos)
    def fn_max_element(self, tu, fd, args, e): return self.extreme(args, 'max')
    def fn_min_element(self, tu, fd, args, e): return self.extreme(args, 'min')
    def fn_find_if(self, tu, fd, args, e, pred=None):
        f, l = self.peek(args[0]), self.peek(args[1])
        if pred is None: pred = lambda x: as_bool(self.poly(self.invoke(args[2], [x])))
        it = self.newroot(f, 'it')
        def body():
            c = pred(self.it_deref(it))
            self.branch(c, lambda: self.die('break'), lambda: None)
        self.loop(lambda: self.it_ne(it, l), body, lambda: self.it_inc(it))
        return self.load(it)
    def fn_find(self, tu, fd, args, e):
        x = self.peek(args[2])
        return self.fn_find_if(tu, fd, args, e, lambda y: self.veq_term(self.val_of(y), x))
    def sorted_range(self, f, l, less, args):
        """a binary search is only meaningful in a sorted range"""
        it = self.newroot(f, 'it')
        def body():
            nx = self.it_add(self.load(it), 1)
            self.branch(self.it_ne(self.newroot(nx, 'nx'), l), lambda: self.oblige('binary search in a sorted range', 1 - less(self.val_of(self.it_deref(nx)), self.val_of(self.it_deref(it)))), lambda: None)
        self.loop(lambda: self.it_ne(it, l), body, lambda: self.it_inc(it))
    def less_of(self, args, k):
        def f(a, b):
            if len(args) > k: return as_bool(self.poly(self.invoke(args[k], [a if isinstance(a, LV) else self.newroot(a, 'a'), b if isinstance(b, LV) else self.newroot(b, 'b')])))
            a, b = self.val_of(a) if isinstance(a, LV) else a, self.val_of(b) if isinstance(b, LV) else b
            if not isinstance(a, Poly) or not isinstance(b, Poly): raise Unsupported('order of non-numbers')
            return lt(a, b)
        return f
    def fn_lower_bound(self, tu, fd, args, e):
        less = self.less_of(args, 3); x = self.peek(args[2])
        self.sorted_range(self.peek(args[0]), self.peek(args[1]), less, args)
        return self.fn_find_if(tu, fd, args, e, lambda y: 1 - less(self.val_of(y), x))
    def fn_upper_bound(self, tu, fd, args, e):
        less = self.less_of(args, 3); x = self.peek(args[2])
        self.sorted_range(self.peek(args[0]), self.peek(args[1]), less, args)
        return self.fn_find_if(tu, fd, args, e, lambda y: less(x, self.val_of(y)))
    def fn_binary_search(self, tu, fd, args, e):
        less = self.less_of(args, 3); x = self.peek(args[2])
        self.sorted_range(self.peek(args[0]), self.peek(args[1]), less, args)
        flag = self.newroot(ZERO, 'any')
        def body(it):
            y = self.val_of(self.it_deref(it))
            self.store(flag, OR(self.load(flag), AND(1 - less(y, x), 1 - less(x, y))))
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(flag)
    def fn_any_of(self, tu, fd, args, e):
        flag = self.newroot(ZERO, 'any')
        def body(it):
            c = as_bool(self.poly(self.invoke(args[2], [self.it_deref(it)])))
            self.store(flag, OR(self.load(flag), c))
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(flag)
    def fn_all_of(self, tu, fd, args, e):
        flag = self.newroot(ONE, 'all')
        def body(it):
            c = as_bool(self.poly(self.invoke(args[2], [self.it_deref(it)])))
            self.store(flag, AND(self.load(flag), c))
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(flag)
    def fn_none_of(self, tu, fd, args, e): return 1 - self.fn_any_of(tu, fd, args, e)
    def fn_count_if(self, tu, fd, args, e):
        acc = self.newroot(ZERO, 'cnt')
        def body(it):
            c = as_bool(self.poly(self.invoke(args[2], [self.it_deref(it)])))
            self.store(acc, self.load(acc) + c)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(acc)
    def fn_equal(self, tu, fd, args, e):
        if len(args) not in (3, 4): return NotImplemented
        flag = self.newroot(ONE, 'eq'); sec = self.newroot(self.peek(args[2]))
        pred = args[3] if len(args) == 4 else None
        if pred is not None and not isinstance(self.peek(pred), VFun): return NotImplemented
        def body(it):
            x = self.it_deref(it); y = self.it_deref(sec)
            c = as_bool(self.poly(self.invoke(pred, [x, y]))) if pred is not None else self.veq_term(self.val_of(x), self.val_of(y))
            self.store(flag, AND(self.load(flag), c)); self.it_inc(sec)
        self.for_range(self.peek(args[0]), self.peek(args[1]), body); return self.load(flag)
    # ------------------------------------------------------------------ containers
    def vec_call(self, tu, fd, n, obj, v, args, e):
        if not isinstance(obj, LV): obj = self.newroot(v)
        if n == 'size': return v.size
        if n == 'empty': return eq0(v.size)
        if n == 'operator[]': return obj.sub(('e', self.simp(self.poly(args[0]))))
        if n == 'at':
            i = self.simp(self.poly(args[0]))
            self.throw('std::out_of_range', None, None, 1 - AND(ge0(i), lt(i, v.size)))
            return obj.sub(('e', i))
        if n in ('begin', 'cbegin'): return VVIt(obj, ZERO)
        if n in ('end', 'cend'): return VVIt(obj, v.size)
        if n == 'front': return obj.sub(('e', ZERO))
        if n == 'back': return obj.sub(('e', self.simp(v.size - 1)))
        if n == 'data': return VVIt(obj, ZERO)
        if n in ('reserve', 'shrink_to_fit'): return VOID
        if n == 'clear': self.store(obj, VVec(v.h, ZERO, v.body, v.et)); return VOID
        if n == 'resize':
            ns = self.simp(self.poly(args[0]))
            et = self.p.type(*v.et) if isinstance(v.et, tuple) and not isinstance(v.et[0], str) else None
            if len(args) > 1: x = self.peek(args[1])
            elif et is not None: x = self.default_ctor(et, v.et[0]) if et['k'] == 'rec' else ZERO
            else: x = ZERO
            self.store(obj, VVec(v.h, ns, self.simp_v(vite(lt(P(BV(v.h)), v.size), v.body, x)) if v.size.t else x, v.et)); return VOID
        if n == 'assign':
            a0 = self.peek(args[0])
            if isinstance(a0, Poly):
                x = self.peek(args[1])
                if isinstance(x, VOpq) and x.kind == 'nullopt' and isinstance(v.body, VOpt): x = VOpt(ZERO, v.body.val)
                if isinstance(v.body, VOpt) and isinstance(x, Poly): x = VOpt(ONE, x)
                self.store(obj, VVec(v.h, a0, x, v.et)); return VOID
        if n in ('push_back', 'emplace_back'):
            et = self.p.type(*v.et) if isinstance(v.et, tuple) and not isinstance(v.et[0], str) else None
            if len(args) == 0: x = self.default_ctor(et, v.et[0]) if et and et['k'] == 'rec' else ZERO
            else:
                a = args[0]; x = self.peek(a)
                if n == 'push_back' and fd['pt'] and self.p.type(tu, fd['pt'][0])['k'] == 'rref' and isinstance(a, LV): self.moved_from(a, x)
            if isinstance(x, Poly) and et is not None: x = self.to_type(x, et)
            if isinstance(x, VMat) and isinstance(v.body, VMat) and x.cls != v.body.cls:
                m = re.match(r'^my_cnn::SimpleMatrix<(.*)>$', v.body.cls)
                x = VMat(v.body.cls, x.dim, self.to_type(x.body, SCAL.get(m.group(1)) if m else None))
            self.store(obj, VVec(v.h, v.size + 1, vite(eq(P(BV(v.h)), v.size), x, v.body) if v.size.t else x, v.et))
            return obj.sub(('e', v.size))
        if n == 'pop_back': self.store(obj, VVec(v.h, v.size - 1, v.body, v.et)); return VOID
        if n == 'operator=':
            a = args[0]; x = self.peek(a)
            if isinstance(x, VVec):
                if isinstance(a, LV) and fd['pt'] and self.p.type(tu, fd['pt'][0])['k'] == 'rref' and a != obj: self.moved_from(a, x)
                self.store(obj, VVec(v.h, x.size, x.body, v.et)); return obj
            if isinstance(x, VOpq) and x.kind == 'ilist': self.store(obj, self.vec_from(v, x.d)); return obj
        if n == 'swap':
            b = self.load(args[0]); self.store(args[0], v); self.store(obj, b); return VOID
        raise Unsupported('vector::' + n)
    def simp_v(self, v): return vmap(v, lambda p, b, q: self.simp(p))
    def arr_call(self, tu, fd, n, obj, v, args, e):
        if not isinstance(obj, LV): obj = self.newroot(v)
        N = len(v.a)
        if n == 'size': return P(N)
        if n == 'operator[]': return obj.sub(('e', self.simp(self.poly(args[0]))))
        if n == 'at':
            i = self.simp(self.poly(args[0]))
            self.throw('std::out_of_range', None, None, 1 - AND(ge0(i), lt(i, N)))
            return obj.sub(('e', i))
        if n in ('begin', 'cbegin'): return VVIt(obj, ZERO)
        if n in ('end', 'cend'): return VVIt(obj, P(N))
        if n == 'fill':
            x = self.peek(args[0]); self.store(obj, VList([x] * N)); return VOID
        if n == 'front': return obj.sub(('e', ZERO))
        if n == 'back': return obj.sub(('e', P(N - 1)))
        if n == 'operator=': self.store(obj, self.peek(args[0])); return obj
        if n == 'data': return VVIt(obj, ZERO)
        raise Unsupported('array::' + n)
    def vit_call(self, tu, fd, n, obj, v, args, e):
        if n == 'operator*': return self.deref(v)
        if n == 'operator->': return VPtr(self.deref(v))
        if n in ('operator++', 'operator--'):
            self.it_inc(obj, 1 if n == 'operator++' else -1); return v if args else obj
        if n in ('operator+', 'operator-'):
            b = self.peek(args[0])
            return self.arith(n[8:], v, b, None)
        if n in ('operator+=', 'operator-='):
            self.it_inc(obj, self.poly(args[0]) if n[8] == '+' else -self.poly(args[0])); return obj
        if n == 'operator[]': return self.deref(self.it_add(v, self.poly(args[0])))
        if n == 'base': return v
        if n == 'operator=': self.store(obj, self.peek(args[0])); return obj
        if n in ('operator==', 'operator!='): return self.arith(n[8:], v.pos, self.peek(args[0]).pos, None)
        raise Unsupported('iterator ' + n)
    def opt_call(self, tu, fd, n, obj, v, args, e):
        if not isinstance(obj, LV): obj = self.newroot(v)
        if n in ('has_value', 'operator bool'): return v.has
        if n == 'value':
            self.throw('std::bad_optional_access', None, None, 1 - v.has); return obj.sub(('o',))
        if n in ('operator*',):
            self.oblige('optional holds a value', v.has); return obj.sub(('o',))
        if n == 'operator->': return VPtr(obj.sub(('o',)))
        if n == 'value_or': return vite(v.has, v.val, self.peek(args[0]))
        if n == 'reset': self.store(obj, VOpt(ZERO, v.val)); return VOID
        if n == 'operator=' or n == 'emplace':
            x = self.peek(args[0])
            if isinstance(x, VOpq) and x.kind == 'nullopt': self.store(obj, VOpt(ZERO, v.val))
            elif isinstance(x, VOpt): self.store(obj, x)
            else: self.store(obj, VOpt(ONE, x))
            return obj
        raise Unsupported('optional::' + n)
    def ptr_call(self, tu, fd, n, obj, v, args, e):
        if n == 'operator->': return v
        if n == 'operator*': return self.deref(v)
        if n == 'get': return v
        if n == 'operator bool': return P(v.lv is not None)
        if n in ('operator=',): self.store(obj, self.peek(args[0])); return obj
        if n == 'reset': self.store(obj, self.peek(args[0]) if args else VPtr(None)); return VOID
        raise Unsupported('pointer ' + n)
    def str_call(self, tu, fd, n, obj, v, args, e):
        if n == 'data' and not fd.get('const') and isinstance(obj, LV): return VOpq('sdata', (obj,))
        if n in ('c_str', 'data'): return v
        if n in ('size', 'length'):
            if isinstance(v, VStr) and all(isinstance(p, str) for p in v.parts): return P(len(''.join(v.parts)))
            c = self.str_code(v)
            if c is not None: return app('strlen', [c], True, False, True)
            if isinstance(v, VStr) and len(v.parts) == 1 and v.parts[0][0] == 'buf': return v.parts[0][1]
            return app('strlen', [sym('str%d' % id(v))], True, False, True)
        if n == 'empty':
            if isinstance(v, VStr) and all(isinstance(p, str) for p in v.parts): return P(not ''.join(v.parts))
            c = self.str_code(v)
            if c is not None: return eq(c, str_id(''))
            if isinstance(v, VIte): return vite(v.c, self.str_call(tu, fd, n, obj, v.a, args, e), self.str_call(tu, fd, n, obj, v.b, args, e))
            if isinstance(v, VStr) and any(isinstance(p, str) or p[0] == 'num' for p in v.parts): return ZERO
        if n in ('operator+=', 'append', 'push_back'):
            self.store(obj, self.str_cat(v, args[0])); return obj
        if n in ('operator=', 'assign'):
            x = self.peek(args[0])
            if isinstance(x, (VStr, VIte)) or (isinstance(x, VObj) and x.cls == 'text'): self.store(obj, x); return obj
        if n == 'clear': self.store(obj, VStr([''])); return VOID
        r = self.str_query(fd, n, v, args)
        if r is not None: return r
        raise Unsupported('string::' + n)
    def str_query(self, fd, n, v, args):
        if isinstance(v, VIte):
            a, b = self.str_query(fd, n, v.a, args), self.str_query(fd, n, v.b, args)
            return None if a is None or b is None else vite(v.c, a, b)
        if not isinstance(v, VStr): return None
        lit = all(isinstance(p, str) for p in v.parts); head = v.parts[0] if v.parts and isinstance(v.parts[0], str) else ''
        NP = P(2**64 - 1)
        xs = [self.peek(a) for a in args]
        ks = [int(x.const()) if isinstance(x, Poly) and x.const() is not None else None for x in xs]
        ss = [''.join(x.parts) if isinstance(x, VStr) and all(isinstance(p, str) for p in x.parts) else None for x in xs]
        def cc(i): return ss[i] if ss[i] is not None else chr(ks[i]) if ks[i] is not None else None
        if n in ('find', 'rfind') and xs and cc(0) is not None:
            t = cc(0); k = ks[1] if len(xs) > 1 else None
            if len(xs) > 1 and k is None: return None
            if lit:
                j = head.find(t, k or 0) if n == 'find' else head.rfind(t, 0, len(head) if k is None or k >= len(head) else k + len(t))
                return P(j) if j >= 0 else NP
            if n == 'rfind' and k == 0 or n == 'find' and head.startswith(t):
                if head.startswith(t): return ZERO
                q = min(len(head), len(t))
                if head[:q] != t[:q]: return NP
                if not t[len(head):][:1].isdigit() and v.parts[1 if head else 0][0] == 'num' and t[len(head):][:1] != '-': return NP
            return None
        if n in ('starts_with',) and cc(0) is not None:
            r = self.str_query({}, 'rfind', v, [args[0], ZERO])
            return None if r is None else P(r.const() == 0)
        if n == 'compare' and len(xs) == 3 and ks[0] == 0 and ks[1] is not None and ss[2] is not None:
            if lit or len(head) >= ks[1]: return P((head[:ks[1]] > ss[2]) - (head[:ks[1]] < ss[2]))
            q = min(len(head), len(ss[2]))
            if head[:q] != ss[2][:q]: return ONE
            return None
        if n == 'compare' and len(xs) in (3, 5) and lit and ss[2] is not None and all(q is not None for i, q in enumerate(ks) if i != 2):
            if ks[0] > len(head) or len(xs) == 5 and ks[3] > len(ss[2]): return None
            a = head[ks[0]:ks[0] + ks[1]]; b = ss[2] if len(xs) == 3 else ss[2][ks[3]:ks[3] + ks[4]]
            return P((a > b) - (a < b))
        if n == 'compare' and len(xs) == 1 and lit and ss[0] is not None: return P((head > ss[0]) - (head < ss[0]))
        if n == 'substr' and (not ks or ks[0] is not None):
            a = ks[0] if ks else 0; l = None
            if len(xs) > 1:
                if ks[1] is None: return None
                l = ks[1]
            if lit: return VStr([head[a:] if l is None else head[a:a + l]])
            if l is not None and a + l <= len(head): return VStr([head[a:a + l]])
            if l is None and a <= len(head): return VStr([head[a:]] + list(v.parts[1:]))
            return None
        if n in ('operator[]', 'at') and ks and ks[0] is not None and ks[0] < len(head): return P(ord(head[ks[0]]))
        if n == 'front' and head: return P(ord(head[0]))
        if n == 'back' and lit and head: return P(ord(head[-1]))
        return None
    def atm_call(self, tu, fd, n, obj, v, args, e):
        a = self.poly(args[0]) if args else ONE
        if n in ('load',) or n.startswith('operator ') : return v
        if n in ('store', 'operator='): self.store(obj, a); return a
        if n in ('fetch_add', 'fetch_sub', 'exchange'):
            self.store(obj, self.simp(v + a if n == 'fetch_add' else v - a if n == 'fetch_sub' else a)); return v
        if n in ('operator++', 'operator--'):
            nv = self.simp(v + 1 if n == 'operator++' else v - 1); self.store(obj, nv)
            return v if fd['pt'] else nv
        if n in ('operator+=', 'operator-='):
            nv = self.simp(v + a if n == 'operator+=' else v - a); self.store(obj, nv); return nv
        raise Unsupported('atomic ' + n)
    def opq_call(self, tu, fd, n, obj, v, args, e):
        h = self.vhooks.get(v.kind)
        if h is not None:
            r = h(self, fd, obj, v, args)
            if r is not NotImplemented: return r
        if v.kind in ('ilist',):
            if n == 'begin': return VVIt(self.newroot(VList(v.d)), ZERO)
            if n == 'end': return VVIt(self.newroot(VList(v.d)), P(len(v.d)))
            if n == 'size': return P(len(v.d))
        if n == 'what' and v.kind.startswith('lib:std::'): return VStr([('opaque', sym('what'))])
        if v.kind.startswith('lib:'):
            rt = self.p.type(tu, fd['rt'])
            if rt['k'] in ('int', 'uint', 'float'): return sym('lib%d' % self.n, rt['k'] != 'float')
            if rt['k'] == 'rec': return VOpq('lib:' + rt['qn'], ())
            if rt['k'] == 'void': return VOID
        raise Unsupported('%s on %s' % (n, v.kind))
    # ------------------------------------------------------------------ streams (output side; input is in streams.py)
    def stream_put(self, obj, st, items):
        k = {'pend': ONE} if 'fails' in st.f else {}
        self.store(obj, VObj(st.cls, {**st.f, 'seq': VSeq(st.f['seq'].items + tuple(items)), 'width': ZERO, **k}))
        return obj
    def stream_flush(self, obj):
        st = self.load(obj)
        if isinstance(st, VObj) and 'fails' in st.f: self.upd(obj, bad=OR(st.f['bad'], st.f['fails']), pend=ZERO)
        return obj
    def stream_out(self, tu, fd, obj, st, v, ty):
        if isinstance(v, VFun): return self.stream_manip(obj, st, v.name)
        if isinstance(v, VOpq) and v.kind.startswith('manip:'):
            k = v.kind[6:]
            if k == 'setprecision': self.store(obj, VObj(st.cls, {**st.f, 'prec': v.d[0]}))
            elif k == 'setfill': self.store(obj, VObj(st.cls, {**st.f, 'fill': self.poly(v.d[0])}))
            elif k == 'setw': self.store(obj, VObj(st.cls, {**st.f, 'width': v.d[0]}))
            else: self.store(obj, VObj(st.cls, {**st.f, 'flags': fn('manip:' + k, st.f['flags'], *[x for x in v.d if isinstance(x, Poly)])}))
            return obj
        if isinstance(v, VStr) and all(isinstance(p, str) for p in v.parts): return self.stream_put(obj, st, [('lit', ''.join(v.parts))])
        if isinstance(v, VObj) and v.cls == 'text': return self.stream_put(obj, st, v.f['seq'].items)
        if isinstance(v, VIte): 
            return self.branch(v.c, lambda: self.stream_out(tu, fd, obj, self.load(obj), v.a, ty), lambda: self.stream_out(tu, fd, obj, self.load(obj), v.b, ty))
        if isinstance(v, Poly):
            if ty is not None and ty['k'] == 'int' and ty.get('w') == 8 and v.const() is not None:
                return self.stream_put(obj, st, [('lit', chr(int(v.const()) % 256))])
            return self.stream_put(obj, st, [('val', v, (ty or {}).get('s', ''), st.f['width'], st.f['prec'], st.f['flags'])])
        if isinstance(v, (VStr, VOpq, VList)): return self.stream_put(obj, st, [('val', v, 'str')])
        raise Unsupported('stream output of %s' % type(v).__name__)
    def stream_manip(self, obj, st, name):
        name = name.split('::')[-1]
        if name in ('endl',): self.stream_put(obj, st, [('lit', '\n')]); return self.stream_flush(obj)
        if name == 'flush': return self.stream_flush(obj)
        if name in ('ws', 'ends'): return obj
        self.store(obj, VObj(st.cls, {**st.f, 'flags': fn('manip:' + name, st.f['flags'])}))
        return obj
    def manip(name):
        def f(self, tu, fd, args, e): return VOpq('manip:' + name, tuple(self.peek(a) for a in args))
        return f
    fn_setprecision = manip('setprecision'); fn_setw = manip('setw'); fn_setfill = manip('setfill'); fn_setiosflags = manip('setiosflags'); fn_resetiosflags = manip('resetiosflags'); fn_setbase = manip('setbase')
    def fn_endl(self, tu, fd, args, e): return self.stream_manip(args[0], self.load(args[0]), 'endl')
    def stm_call(self, tu, fd, n, obj, st, args, e):
        if n == 'operator<<': return self.stream_out(tu, fd, obj, st, self.peek(args[0]), self.p.strip(tu, fd['pt'][0]))
        if n == 'operator>>': return self.stream_in(tu, fd, obj, st, args[0])
        if n == 'str' and not args: return VObj('text', {'seq': st.f['seq']})
        if n == 'flags':
            if not args: return st.f['flags']
            self.store(obj, VObj(st.cls, {**st.f, 'flags': self.poly(args[0])})); return st.f['flags']
        if n == 'precision':
            if not args: return st.f['prec']
            self.store(obj, VObj(st.cls, {**st.f, 'prec': self.poly(args[0])})); return st.f['prec']
        if n == 'fill':
            if args: self.store(obj, VObj(st.cls, {**st.f, 'fill': self.poly(args[0])}))
            return st.f['fill']
        if n == 'width':
            if not args: return st.f['width']
            self.store(obj, VObj(st.cls, {**st.f, 'width': self.poly(args[0])})); return st.f['width']
        if n == 'setf':
            self.store(obj, VObj(st.cls, {**st.f, 'flags': fn('setf', st.f['flags'], *[self.poly(a) for a in args])})); return st.f['flags']
        if n == 'unsetf':
            self.store(obj, VObj(st.cls, {**st.f, 'flags': fn('unsetf', st.f['flags'], *[self.poly(a) for a in args])})); return VOID
        if n == 'flush': return self.stream_flush(obj)
        if n == 'put': return self.stream_put(obj, st, [('lit', chr(int(self.poly(args[0]).const())))])
        return self.stream_method(tu, fd, n, obj, st, args, e)
