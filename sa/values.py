"""Abstract values: immutable trees whose leaves are terms (Poly).  Matrices and vectors are functions of canonical
binder atoms (BX,BY,BZ / BV)."""
from .terms import *
from . import terms as T

BX, BY, BZ = (mk('sym', ('#x',), True, nn=True), mk('sym', ('#y',), True, nn=True), mk('sym', ('#z',), True, nn=True))
MB = (BX, BY, BZ)
def BV(h): return mk('sym', ('#v%d' % h,), True, nn=True)

class Val:
    __slots__ = ()
    def __repr__(self): return vshow(self)
class VObj(Val):
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
class VMat(Val):
    __slots__ = ('cls', 'dim', 'body')
    def __init__(self, cls, dim, body): self.cls = cls; self.dim = dim; self.body = body   # dim: 3 Polys
class VVec(Val):
    __slots__ = ('h', 'size', 'body', 'et')
    def __init__(self, h, size, body, et): self.h = h; self.size = P(size); self.body = body; self.et = et
class VList(Val):
    __slots__ = ('a',)
    def __init__(self, a): self.a = tuple(a)
class VPtr(Val):
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
class VRef(Val):
    __slots__ = ('lv', 'shared')
    def __init__(self, lv): self.lv = lv
class VFun(Val):
    __slots__ = ('tu', 'fids', 'caps', 'this', 'name')
    def __init__(self, tu, fids, caps, this, name=''): self.tu = tu; self.fids = fids; self.caps = caps; self.this = this; self.name = name
class VMIt(Val):
    """iterator of a matrix-like object: column-major position pos (idx given when known in closed form)"""
    __slots__ = ('lv', 'pos', 'idx')
    def __init__(self, lv, pos, idx=None): self.lv = lv; self.pos = P(pos); self.idx = idx
class VVIt(Val):
    __slots__ = ('lv', 'pos')
    def __init__(self, lv, pos): self.lv = lv; self.pos = P(pos)
_codes = {}
def str_id(s):
    if s not in _codes: _codes[s] = 1000003 + len(_codes) * 7
    return _codes[s]
class VStr(Val):
    """string: concatenation of parts (str literals or ('num', Poly) or ('sym', Poly-id))"""
    __slots__ = ('parts',)
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        self.parts = tuple(out)
class VOpt(Val):
    __slots__ = ('has', 'val')
    def __init__(self, has, val): self.has = P(has); self.val = val
class VIte(Val):
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class VSeq(Val):
    """append-only sequence (output stream contents)"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
class VOpq(Val):
    """opaque handle"""
    __slots__ = ('kind', 'd')
    def __init__(self, kind, d=()): self.kind = kind; self.d = d
VOID = VOpq('void')

class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)
    def __eq__(self, o): return isinstance(o, LV) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
    def sub(self, *steps): return LV(self.root, self.path + steps)
    def __repr__(self): return '&%s%s' % (self.root, ''.join('.' + str(x) for x in self.path))

def lvmap(lv, f):
    """map the terms inside an lvalue path"""
    if lv is None: return None
    out = []; ch = False
    for s in lv.path:
        if s[0] in ('e', 'm'):
            n = (s[0],) + tuple(f(x) for x in s[1:])
            ch = ch or n != s; out.append(n)
        else: out.append(s)
    return LV(lv.root, out) if ch else lv

def vmap(v, f, binders=(), path=()):
    """rebuild v with f(poly, binders, path) at the leaves"""
    if isinstance(v, Poly): return f(v, binders, path)
    if isinstance(v, VObj):
        d = {k: vmap(x, f, binders, path + (k,)) for k, x in v.f.items()}
        if all(d[k] is v.f[k] for k in d): return v
        return VObj(v.cls, d)
    if isinstance(v, VMat):
        dm = tuple(f(x, binders, path + ('dim%d' % i,)) for i, x in enumerate(v.dim))
        b = vmap(v.body, f, binders + MB, path + ('body',))
        if b is v.body and all(x is y for x, y in zip(dm, v.dim)): return v
        return VMat(v.cls, dm, b)
    if isinstance(v, VVec):
        s = f(v.size, binders, path + ('size',)); b = vmap(v.body, f, binders + (BV(v.h),), path + ('body',))
        if s is v.size and b is v.body: return v
        return VVec(v.h, s, b, v.et)
    if isinstance(v, VList):
        a = [vmap(x, f, binders, path + (i,)) for i, x in enumerate(v.a)]
        if all(x is y for x, y in zip(a, v.a)): return v
        return VList(a)
    if isinstance(v, VMIt):
        p = f(v.pos, binders, path + ('pos',))
        ix = None if v.idx is None else tuple(f(x, binders, path + ('idx%d' % i,)) for i, x in enumerate(v.idx))
        lv = lvmap(v.lv, lambda x: f(x, binders, path + ('lv',)))
        return v if p is v.pos and ix == v.idx and lv is v.lv else VMIt(lv, p, ix)
    if isinstance(v, VVIt):
        p = f(v.pos, binders, path + ('pos',))
        lv = lvmap(v.lv, lambda x: f(x, binders, path + ('lv',)))
        return v if p is v.pos and lv is v.lv else VVIt(lv, p)
    if isinstance(v, VOpt):
        h = f(v.has, binders, path + ('has',)); x = vmap(v.val, f, binders, path + ('val',))
        return v if h is v.has and x is v.val else VOpt(h, x)
    if isinstance(v, VIte):
        c = f(v.c, binders, path + ('c',))
        if isinstance(c, Poly) and c.const() is not None: return vmap(v.a, f, binders, path + ('a',)) if c.const() else vmap(v.b, f, binders, path + ('b',))
        return VIte(c, vmap(v.a, f, binders, path + ('a',)), vmap(v.b, f, binders, path + ('b',)))
    if isinstance(v, (VPtr, VRef)):
        lv = lvmap(v.lv, lambda x: f(x, binders, path + ('lv',)))
        return v if lv is v.lv else type(v)(lv)
    if isinstance(v, VStr):
        ps = []; ch = False
        for i, p in enumerate(v.parts):
            if isinstance(p, tuple) and len(p) > 1 and isinstance(p[1], Poly):
                q = f(p[1], binders, path + ('p%d' % i,)); ch = ch or q is not p[1]; ps.append((p[0], q) + p[2:])
            else: ps.append(p)
        return VStr(ps) if ch else v
    if isinstance(v, VSeq):
        return VSeq([seqmap(x, f, binders, path) for x in v.items])
    if isinstance(v, VFun):
        if not v.caps: return v
        c = {k: (x if isinstance(x, LV) else vmap(x, f, binders, path + ('cap', k))) for k, x in v.caps.items()}
        if all(c[k] is v.caps[k] for k in c): return v
        return VFun(v.tu, v.fids, c, v.this, v.name)
    if isinstance(v, VOpq):
        if any(isinstance(x, Poly) for x in v.d):
            return VOpq(v.kind, tuple(f(x, binders, path + (i,)) if isinstance(x, Poly) else x for i, x in enumerate(v.d)))
        return v
    if v is None: return None
    if isinstance(v, LV): return lvmap(v, lambda x: f(x, binders, path))
    raise Unsupported('vmap ' + type(v).__name__)
def seqmap(x, f, binders, path):
    """items: ('lit',str) ('val',Value,..) ('rep',vars,bounds,items) ('cond',c,items,items)"""
    if x[0] == 'val': return ('val', vmap(x[1], f, binders, path)) + x[2:6] + tuple(f(y, binders, path) for y in x[6:])
    if x[0] == 'rep': return ('rep', x[1], tuple(f(b, binders, path) for b in x[2]), tuple(seqmap(y, f, binders, path) for y in x[3]))
    if x[0] == 'cond': return ('cond', f(x[1], binders, path), tuple(seqmap(y, f, binders, path) for y in x[2]), tuple(seqmap(y, f, binders, path) for y in x[3]))
    return x

def vsubst(v, s):
    if not s: return v
    return vmap(v, lambda p, b, q: subst(p, {k: x for k, x in s.items() if k not in b} if b else s))

def vite(c, a, b):
    """merge two values"""
    cc = c.const()
    if cc is not None: return a if cc else b
    if a is b: return a
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, VObj) and isinstance(b, VObj) and a.cls == b.cls:
        return VObj(a.cls, {k: vite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, VMat) and isinstance(b, VMat) and a.cls == b.cls:
        return VMat(a.cls, tuple(ite(c, x, y) for x, y in zip(a.dim, b.dim)), vite(c, a.body, b.body))
    if isinstance(a, VVec) and isinstance(b, VVec) and a.h == b.h:
        return VVec(a.h, ite(c, a.size, b.size), vite(c, a.body, b.body), a.et)
    if isinstance(a, VList) and isinstance(b, VList) and len(a.a) == len(b.a):
        return VList([vite(c, x, y) for x, y in zip(a.a, b.a)])
    if isinstance(a, VMIt) and isinstance(b, VMIt) and a.lv == b.lv:
        ix = None
        if a.idx is not None and b.idx is not None: ix = tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx))
        elif a.idx is not None or b.idx is not None: return VIte(c, a, b)
        return VMIt(a.lv, ite(c, a.pos, b.pos), ix)
    if isinstance(a, VVIt) and isinstance(b, VVIt) and a.lv == b.lv: return VVIt(a.lv, ite(c, a.pos, b.pos))
    if isinstance(a, VOpt) and isinstance(b, VOpt): return VOpt(ite(c, a.has, b.has), vite(c, a.val, b.val))
    if isinstance(a, VStr) and isinstance(b, VStr):
        if a.parts == b.parts: return a
        cs = [v.parts[0][1] if len(v.parts) == 1 and v.parts[0][0] == 'sym' else P(str_id(''.join(v.parts))) if all(isinstance(q, str) for q in v.parts) else None for v in (a, b)]
        if None not in cs and any(len(v.parts) == 1 and v.parts[0][0] == 'sym' for v in (a, b)): return VStr([('sym', ite(c, *cs))])
        if len(a.parts) == 1 and len(b.parts) == 1 and a.parts[0][0] == 'sym' and b.parts[0][0] == 'sym': return VStr([('sym', ite(c, a.parts[0][1], b.parts[0][1]))])
    if isinstance(a, (VPtr, VRef)) and type(a) is type(b) and a.lv == b.lv: return a
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        i = 0
        while i < len(a.items) and i < len(b.items) and a.items[i] == b.items[i]: i += 1
        if i == len(a.items) == len(b.items): return a
        return VSeq(a.items[:i] + (('cond', c, a.items[i:], b.items[i:]),))
    if isinstance(a, VFun) and isinstance(b, VFun) and a.tu == b.tu and a.fids == b.fids and a.caps.keys() == b.caps.keys() and all(a.caps[k] == b.caps[k] for k in a.caps): return a
    if isinstance(a, VOpq) and isinstance(b, VOpq) and a.kind == b.kind and len(a.d) == len(b.d):
        if a.d == b.d: return a
        if all(x == y or (isinstance(x, Poly) and isinstance(y, Poly)) for x, y in zip(a.d, b.d)):
            return VOpq(a.kind, tuple(ite(c, x, y) if isinstance(x, Poly) else x for x, y in zip(a.d, b.d)))
    if isinstance(a, VIte) and a.c == c: a = a.a
    if isinstance(b, VIte) and b.c == c: b = b.b
    if veq(a, b): return a
    return VIte(c, a, b)

def veq(a, b):
    """structural identity"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Poly): return a == b
    if isinstance(a, VObj): return a.cls == b.cls and a.f.keys() == b.f.keys() and all(veq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VMat): return a.dim == b.dim and veq(a.body, b.body)
    if isinstance(a, VVec): return a.size == b.size and a.h == b.h and veq(a.body, b.body)
    if isinstance(a, VList): return len(a.a) == len(b.a) and all(veq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, (VPtr, VRef)): return a.lv == b.lv
    if isinstance(a, VMIt): return a.lv == b.lv and a.pos == b.pos and a.idx == b.idx
    if isinstance(a, VVIt): return a.lv == b.lv and a.pos == b.pos
    if isinstance(a, VStr): return a.parts == b.parts
    if isinstance(a, VOpt): return a.has == b.has and veq(a.val, b.val)
    if isinstance(a, VIte): return a.c == b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, VSeq): return len(a.items) == len(b.items) and all(x is y or x == y for x, y in zip(a.items, b.items))
    if isinstance(a, VOpq): return a.kind == b.kind and a.d == b.d
    if isinstance(a, VFun): return a.tu == b.tu and a.fids == b.fids and a.caps.keys() == b.caps.keys() and all(a.caps[k] is b.caps[k] or (not isinstance(a.caps[k], LV) and veq(a.caps[k], b.caps[k])) or a.caps[k] == b.caps[k] for k in a.caps)
    return False

def vshow(v):
    if isinstance(v, VObj): return v.cls.split('::')[-1] + '{' + ', '.join('%s=%s' % (k, x) for k, x in v.f.items()) + '}'
    if isinstance(v, VMat): return 'Mat[%s,%s,%s](%s)' % (v.dim + (v.body,))
    if isinstance(v, VVec): return 'Vec[%s](%s)' % (v.size, v.body)
    if isinstance(v, VList): return 'List' + str(list(v.a))
    if isinstance(v, VPtr): return 'ptr(%s)' % (v.lv,)
    if isinstance(v, VRef): return 'ref(%s)' % (v.lv,)
    if isinstance(v, VMIt): return 'mit(%s@%s)' % (v.lv, v.pos)
    if isinstance(v, VVIt): return 'vit(%s@%s)' % (v.lv, v.pos)
    if isinstance(v, VStr): return 'str' + repr(v.parts)
    if isinstance(v, VOpt): return 'opt(%s,%s)' % (v.has, v.val)
    if isinstance(v, VIte): return 'ite(%s,%s,%s)' % (v.c, v.a, v.b)
    if isinstance(v, VSeq): return 'seq' + repr(v.items)
    if isinstance(v, VOpq): return v.kind + str(v.d)
    if isinstance(v, VFun): return 'fun(%s)' % (v.name or v.fids,)
    return object.__repr__(v)
