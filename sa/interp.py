"""Abstract interpreter over the resolved program: computes, for a function and symbolic arguments, closed-form summaries
of results, writes and exceptional exits.  Branches are joined (no path enumeration), loops are summarised by solving
their per-iteration recurrences; what cannot be summarised raises Unsupported and leaves the obligation undecided."""
import re
from .terms import *
from . import terms as T
from .facts import Facts
from .values import *

LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
class DeadPath(Exception): pass
class Reparam(Exception):
    def __init__(self, k, dims): self.k = k; self.dims = dims

class Prog:
    """all translation units; functions are looked up by unit first, then by mangled name"""
    def __init__(self, units):
        self.tus = units           # list of json
        self.bym = {}
        for ti, d in enumerate(units):
            for fid in d['funcs']:
                m = d['fdecls'][int(fid)].get('m')
                if m: self.bym.setdefault(m, (ti, int(fid)))
        self._rec = {}
    def fd(self, tu, fid): return self.tus[tu]['fdecls'][fid]
    def body(self, tu, fid):
        d = self.tus[tu]
        b = d['funcs'].get(str(fid))
        if b is not None: return tu, fid, b
        m = d['fdecls'][fid].get('m')
        if m and m in self.bym:
            t2, f2 = self.bym[m]
            return t2, f2, self.tus[t2]['funcs'][str(f2)]
        return None
    def type(self, tu, t): return self.tus[tu]['types'][t]
    def strip(self, tu, t):
        """type without reference"""
        ty = self.type(tu, t)
        while ty['k'] in ('ref', 'rref'): ty = self.type(tu, ty['to'])
        return ty
    def find(self, qn, pred=None):
        out = []
        for ti, d in enumerate(self.tus):
            for i, f in enumerate(d['fdecls']):
                if f and f['qn'] == qn and not f.get('dep') and (pred is None or pred(ti, f)) and self.body(ti, i): out.append((ti, i))
        return out
    def rec(self, tu, ty):
        if ty.get('rec') is None: return None
        return self.tus[tu]['recs'][ty['rec']]
    def fields(self, tu, ri):
        """flattened fields [(name, type id, init expr, tu)] of record ri including bases; anonymous members are merged"""
        key = (tu, ri)
        if key in self._rec: return self._rec[key]
        r = self.tus[tu]['recs'][ri]; out = []
        for b in r.get('bases', []):
            if 'rec' in b: out += self.fields(tu, b['rec'])
        for f in r.get('fields', []):
            if f.get('anon') and 'rec' in f:
                sub = self.tus[tu]['recs'][f['rec']]
                if sub.get('union'):
                    # struct member + array alias: keep the struct's names
                    ss = [g for g in sub['fields'] if g.get('anon')]
                    if ss: out += self.fields(tu, ss[0]['rec'])
                    else: out += [(sub['fields'][0]['n'], sub['fields'][0]['t'], None, tu)]
                else: out += self.fields(tu, f['rec'])
            else: out.append((f['n'], f['t'], f.get('init'), tu))
        self._rec[key] = out
        return out
    def alias(self, tu, ri):
        """{array member name: [scalar member names]} for union aliasing"""
        r = self.tus[tu]['recs'][ri]; out = {}
        for f in r.get('fields', []):
            if f.get('anon') and 'rec' in f:
                sub = self.tus[tu]['recs'][f['rec']]
                if sub.get('union'):
                    ss = [g for g in sub['fields'] if g.get('anon')]
                    if ss:
                        names = [x[0] for x in self.fields(tu, ss[0]['rec'])]
                        for g in sub['fields']:
                            if not g.get('anon'): out[g['n']] = names
        return out

class St:
    __slots__ = ('heap', 'facts', 'live')
    def __init__(self, heap, facts, live): self.heap = heap; self.facts = facts; self.live = live
    def copy(self): return St(dict(self.heap), self.facts, self.live)

class Exit:
    __slots__ = ('kind', 'cond', 'heap', 'facts', 'val', 'where')
    def __init__(self, kind, cond, heap, facts, val=None, where=None): self.kind = kind; self.cond = cond; self.heap = heap; self.facts = facts; self.val = val; self.where = where

class Frame:
    __slots__ = ('tu', 'env', 'this', 'fid', 'line', 'rett')
    def __init__(self, tu, fid, this): self.tu = tu; self.fid = fid; self.env = {}; self.this = this; self.line = 0; self.rett = None

MAT = 'my_cnn::SimpleMatrix'
MIT = 'my_cnn::MatrixIterator'

from .streams import Streams
from .lib import Lib

class Interp(Streams, Lib):
    def __init__(self, prog, contract=True, facts=None):
        self.p = prog; self.contract = contract
        self.st = St({}, facts or Facts(), ONE)
        self.exits = []; self.frames = []
        self.n = 0; self.flat = {}; self.loopvars = []   # [(vars, bounds)]
        self.obl = []; self.probe = 0; self.events = []; self.livestack = []
        self.texts = []; self.globals = {}; self.tls = {}; self.hooks = {}; self.steps = 0; self.maxsteps = 400000
        self.visited = set(); self.depth = 0; self.loops_done = 0
        self.vhooks = {}; self.chooks = {'std::fpos': lambda I, ty, args: I.peek(args[0]) if args else ZERO}
    # ------------------------------------------------------------------ basics
    @property
    def fr(self): return self.frames[-1]
    @property
    def facts(self): return self.st.facts
    def simp(self, p): return self.st.facts.simplify(p)
    def newroot(self, v, tag='t'):
        self.n += 1
        r = (tag, self.n)
        self.st.heap[r] = v
        return LV(r)
    def where(self):
        fr = self.frames[-1] if self.frames else None
        if fr is None: return ''
        b = self.p.tus[fr.tu]
        f = b['funcs'].get(str(fr.fid), {})
        return '%s:%d (%s)' % (b['files'][f['file']] if 'file' in f else '?', fr.line, b['fdecls'][fr.fid]['qn'] if fr.fid is not None else '')
    def oblige(self, what, cond):
        """record that cond (0/1 term) must hold here"""
        if self.probe: return
        c = self.simp(cond)
        live = self.st.live
        if c.const() != 1:
            for l in self.livestack:
                if l.const() is None: live = self.simp(live * l)
        self.obl.append(dict(what=what, cond=c, facts=self.facts, live=live, where=self.where(), loops=list(self.loopvars), ok=c.const() == 1))
    # ------------------------------------------------------------------ types
    def ty(self, t, tu=None): return self.p.type(self.fr.tu if tu is None else tu, t)
    def sty(self, t, tu=None): return self.p.strip(self.fr.tu if tu is None else tu, t)
    def default(self, ty, tu, init=False, name=None, args=()):
        """value of a default-initialised (init=False: indeterminate scalars) or value-initialised object of the type"""
        k = ty['k']
        if k in ('int', 'uint', 'float', 'bool', 'enum'):
            if init: return ZERO
            self.n += 1
            nm = 'undef%d' % self.n
            return app(nm, list(args), k != 'float', False)
        if k == 'ptr': return VPtr(None) if init else VOpq('undefptr', (self.n,))
        if k in ('ref', 'rref'): return VOpq('undefref', ())
        if k == 'arr': return VList([self.default(self.p.type(tu, ty['to']), tu, init, name, args) for _ in range(ty.get('n', 0))])
        if k == 'rec':
            qn = ty['qn']
            if self.contract is True and qn == MAT: return VMat(ty['s'].replace('const ', ''), (ZERO, ZERO, ZERO), self.default_elem(ty, tu, args))
            lib = self.lib_default(ty, tu, init, args)
            if lib is not None: return lib
            if ty.get('rec') is not None:
                f = {}
                for n, t, ini, tu2 in self.p.fields(tu, ty['rec']):
                    f[n] = self.default(self.p.type(tu2, t), tu2, init, name, args)
                return VObj(self.cname(ty), f)
        raise Unsupported('default value of ' + ty['s'])
    def cname(self, ty): return ty['s'].replace('const ', '')
    def targ(self, ty, tu, i=0):
        a = ty['ta'][i]
        return self.p.type(tu, a['t']) if a and 't' in a else (a.get('v') if a else None)
    def default_elem(self, ty, tu, args=()):
        et = self.targ(ty, tu)
        return self.default(et, tu, False, None, tuple(args) + tuple(P(b) for b in MB))
    def height(self, ty, tu):
        if ty['k'] == 'rec' and ty['qn'] in ('std::vector',): return 1 + self.height(self.targ(ty, tu), tu)
        return 0
    def symv(self, ty, tu, name, args=()):
        """symbolic value of the type"""
        k = ty['k']
        if k in ('ref', 'rref'): return self.symv(self.p.type(tu, ty['to']), tu, name, args)
        if k == 'bool': return app(name, list(args), True, True) if args else sym(name, True, True)
        if k in ('int', 'uint', 'enum', 'float'):
            isint = k != 'float'; nn = k == 'uint'
            return app(name, list(args), isint, False, nn) if args else sym(name, isint, False, nn)
        if k == 'rec':
            qn = ty['qn']
            if self.contract is True and qn == MAT:
                d = tuple(app('%s.%s' % (name, c), list(args), True, False, True) if args else sym('%s.%s' % (name, c), True, False, True) for c in 'xyz')
                return VMat(self.cname(ty), d, self.symv(self.targ(ty, tu), tu, name, tuple(args) + tuple(P(b) for b in MB)))
            if qn == 'std::vector':
                h = 1 + self.height(self.targ(ty, tu), tu)
                n = app(name + '.n', list(args), True, False, True) if args else sym(name + '.n', True, False, True)
                return VVec(h, n, self.symv(self.targ(ty, tu), tu, name, tuple(args) + (P(BV(h)),)), (tu, ty['ta'][0]['t']))
            if qn == 'std::array':
                return VList([self.symv(self.targ(ty, tu), tu, '%s[%d]' % (name, i), args) for i in range(self.targ(ty, tu, 1))])
            if qn == 'std::optional':
                return VOpt(app(name + '.has', list(args), True, True) if args else sym(name + '.has', True, True), self.symv(self.targ(ty, tu), tu, name + '.val', args))
            if qn == 'std::basic_string': return VStr([('sym', app(name, list(args), True))])
            if ty.get('rec') is not None:
                if qn == MAT:
                    f = {}
                    for n, t, ini, tu2 in self.p.fields(tu, ty['rec']):
                        f[n] = self.symv(self.p.type(tu2, t), tu2, name + '.' + n, args)
                    return VObj(self.cname(ty), f)
                return VObj(self.cname(ty), {n: self.symv(self.p.type(tu2, t), tu2, name + '.' + n, args) for n, t, ini, tu2 in self.p.fields(tu, ty['rec'])})
        return VOpq('opaque:' + name, tuple(args))
    # ------------------------------------------------------------------ heap
    def load(self, lv):
        if isinstance(lv, VIte): return vite(lv.c, self.load(lv.a), self.load(lv.b))
        v = self.st.heap.get(lv.root)
        if v is None and lv.root not in self.st.heap: raise Unsupported('dangling reference %r' % (lv,))
        return self.getp(v, lv.path, lv)
    def getp(self, v, path, lv=None):
        j = 0
        while j < len(path):
            s = path[j]
            if s == ('f', 'values_') and j + 1 < len(path) and path[j + 1][0] == 'e':
                if isinstance(v, VRef): v = self.load(v.lv)
                if isinstance(v, VIte): return vite(v.c, self.getp(v.a, path[j:], lv), self.getp(v.b, path[j:], lv))
                if isinstance(v, VMat):
                    v = vsubst(v.body, dict(zip(MB, self.flat_at(v, path[j + 1][1])))); j += 2
                    continue
            v = self.step(v, s); j += 1
        return v
    def flat_at(self, v, i):
        """coordinates of position i of the stored values"""
        i = self.simp(i)
        self.oblige('vector index inside the vector', AND(ge0(i), lt(i, v.dim[0] * v.dim[1] * v.dim[2])))
        return self.unflat(i, v.dim)
    def step(self, v, s):
        if isinstance(v, VIte): return vite(v.c, self.step(v.a, s), self.step(v.b, s))
        if isinstance(v, VRef): v = self.load(v.lv)
        k = s[0]
        if k == 'f':
            n = s[1]
            if isinstance(v, VObj):
                if n in v.f: return v.f[n]
                if n == 'data': return VList([v.f[c] for c in 'xyz'])
            if isinstance(v, VMat):
                if n == 'dim_': return self.dimobj(v.dim)
                if n == 'values_': return self.as_flat(v)
            raise Unsupported('field %s of %s' % (n, type(v).__name__))
        if k == 'e':
            i = s[1]
            if isinstance(v, VList):
                c = self.simp(i).const()
                if c is not None:
                    if not 0 <= c < len(v.a):
                        self.oblige('array index %s inside [0,%d)' % (c, len(v.a)), ZERO); raise Unsupported('array index out of range')
                    return v.a[int(c)]
                self.oblige('array index inside the array', AND(ge0(i), lt(i, len(v.a))))
                r = v.a[-1]
                for j in range(len(v.a) - 2, -1, -1): r = vite(eq(i, j), v.a[j], r)
                return r
            if isinstance(v, VVec):
                i = self.simp(i)
                self.oblige('vector index inside the vector', AND(ge0(i), lt(i, v.size)))
                return vsubst(v.body, {BV(v.h): i})
        if k == 'm' and isinstance(v, VMat):
            idx = tuple(self.simp(x) for x in s[1:])
            self.oblige('matrix position inside the matrix', AND(*[AND(ge0(x), lt(x, d)) for x, d in zip(idx, v.dim)]))
            return vsubst(v.body, dict(zip(MB, idx)))
        if k == 'o' and isinstance(v, VOpt): return v.val
        if k == 'raw': return VList(self.to_bytes(v, s[1]))
        raise Unsupported('access %s of %s' % (s, type(v).__name__))
    def store(self, lv, val):
        if isinstance(lv, VIte):
            a = self.load(lv.a); b = self.load(lv.b)
            self.store(lv.a, vite(lv.c, val, a)); self.store(lv.b, vite(lv.c, self.load(lv.b), val)); return
        if lv.root not in self.st.heap: raise Unsupported('dangling reference')
        self.st.heap[lv.root] = self.setp(self.st.heap[lv.root], lv.path, val)
    def setp(self, v, path, val):
        if not path: return val
        s = path[0]; rest = path[1:]; k = s[0]
        if isinstance(v, VIte): return VIte(v.c, self.setp(v.a, path, val), self.setp(v.b, path, val))
        if isinstance(v, VRef):
            self.st.heap[v.lv.root] = self.setp(self.st.heap[v.lv.root], v.lv.path + tuple(path), val)
            return v
        if k == 'f':
            n = s[1]
            if isinstance(v, VObj):
                if n in v.f: return VObj(v.cls, {**v.f, n: self.setp(v.f[n], rest, val)})
                if n == 'data':
                    l = VList([v.f[c] for c in 'xyz'])
                    l = self.setp(l, rest, val)
                    if len(l.a) != 3: raise Unsupported('array assignment')
                    return VObj(v.cls, {**v.f, **dict(zip('xyz', l.a))})
            if isinstance(v, VMat):
                if n == 'dim_':
                    d = self.setp(self.dimobj(v.dim), rest, val)
                    return self.redim(v, (d.f['x'], d.f['y'], d.f['z']))
                if n == 'values_' and rest and rest[0][0] == 'e':
                    idx = self.flat_at(v, rest[0][1])
                    nv = self.setp(vsubst(v.body, dict(zip(MB, idx))), rest[1:], val) if rest[1:] else val
                    return VMat(v.cls, v.dim, vite(AND(*[eq(P(b), x) for b, x in zip(MB, idx)]), nv, v.body))
                if n == 'values_':
                    nv = self.setp(self.as_flat(v), rest, val)
                    return self.from_flat(v, nv)
            raise Unsupported('assign field %s of %s' % (n, type(v).__name__))
        if k == 'e':
            i = self.simp(s[1])
            if isinstance(v, VList):
                c = i.const()
                if c is not None:
                    if not 0 <= c < len(v.a):
                        self.oblige('array index %s inside [0,%d)' % (c, len(v.a)), ZERO); raise Unsupported('array index out of range')
                    a = list(v.a); a[int(c)] = self.setp(a[int(c)], rest, val)
                    return VList(a)
                self.oblige('array index inside the array', AND(ge0(i), lt(i, len(v.a))))
                return VList([vite(eq(i, j), self.setp(x, rest, val), x) for j, x in enumerate(v.a)])
            if isinstance(v, VVec):
                self.oblige('vector index inside the vector', AND(ge0(i), lt(i, v.size)))
                b = BV(v.h)
                nv = self.setp(vsubst(v.body, {b: i}), rest, val) if rest else val
                return VVec(v.h, v.size, vite(eq(P(b), i), nv, v.body), v.et)
        if k == 'm' and isinstance(v, VMat):
            idx = tuple(self.simp(x) for x in s[1:])
            self.oblige('matrix position inside the matrix', AND(*[AND(ge0(x), lt(x, d)) for x, d in zip(idx, v.dim)]))
            nv = self.setp(vsubst(v.body, dict(zip(MB, idx))), rest, val) if rest else val
            c = AND(*[eq(P(b), x) for b, x in zip(MB, idx)])
            return VMat(v.cls, v.dim, vite(c, nv, v.body))
        if k == 'o' and isinstance(v, VOpt): return VOpt(v.has, self.setp(v.val, rest, val))
        if k == 'raw': return self.from_bytes(self.setp(VList(self.to_bytes(v, s[1])), rest, val).a, s[1], s[2])
        raise Unsupported('assign %s of %s' % (s, type(v).__name__))
    # matrices ---------------------------------------------------------------
    def dimobj(self, d): return VObj('my_cnn::Dim<3>', dict(zip('xyz', d)))
    def flatpos(self, idx, dim): return P(idx[0]) + P(idx[1]) * dim[0] + P(idx[2]) * dim[0] * dim[1]
    def unflat(self, pos, dim):
        pos = self.simp(pos); dim = tuple(self.simp(d) for d in dim)
        if pos.const() == 0: return (ZERO, ZERO, ZERO)
        for fp, (idx, fd) in self.flat.items():
            if fp == pos and all(self.same(a, b) for a, b in zip(fd, dim)): return idx
        one = [d.const() == 1 for d in dim]
        if one[1] and one[2]: return (pos, ZERO, ZERO)
        if one[0] and one[2]: return (ZERO, pos, ZERO)
        if one[0] and one[1]: return (ZERO, ZERO, pos)
        for vs, bs in self.loopvars:
            if len(vs) == 1 and pos == P(vs[0]) and bs[0] == dim[0] * dim[1] * dim[2]: raise Reparam(vs[0], dim)
        x = self.simp(imod(pos, dim[0])); q = self.simp(idiv(pos, dim[0]))
        y = self.simp(imod(q, dim[1])); z = self.simp(idiv(pos, dim[0] * dim[1]))
        return (x, y, z)
    def same(self, a, b):
        a = P(a); b = P(b)
        return a == b or not self.simp(a - b).t
    def as_flat(self, v):
        h = 1
        b = P(BV(h))
        size = v.dim[0] * v.dim[1] * v.dim[2]
        F = self.st.facts
        self.st.facts = F.range(BV(h), size)
        try: idx = self.unflat(b, v.dim)
        finally: self.st.facts = F
        return VVec(h, size, vsubst(v.body, dict(zip(MB, idx))), ('elem', v.cls))
    def from_flat(self, v, nv):
        if not isinstance(nv, VVec): raise Unsupported('values_')
        return VMat(v.cls, v.dim, vsubst(nv.body, {BV(nv.h): self.flatpos([P(b) for b in MB], v.dim)}))
    def redim(self, v, nd):
        nd = tuple(nd)
        if all(self.same(a, b) for a, b in zip(nd, v.dim)): return VMat(v.cls, nd, v.body)
        if all(d.const() == 0 for d in v.dim): return VMat(v.cls, nd, v.body)
        F = self.st.facts
        f2 = F
        for b, d in zip(MB, nd): f2 = f2.range(b, d)
        self.st.facts = f2
        try: idx = self.unflat(self.flatpos([P(b) for b in MB], nd), v.dim)
        finally: self.st.facts = F
        return VMat(v.cls, nd, vsubst(v.body, dict(zip(MB, idx))))
    def mat_facts(self, dim):
        F = self.st.facts
        return Facts(F.ges + tuple(g for b, d in zip(MB, dim) for g in (P(b), P(d) - 1 - P(b))), F.sub, F.bools)
    def tidy(self, v):
        """simplify matrix bodies under the range of their binders"""
        if isinstance(v, VMat):
            dim = tuple(self.simp(d) for d in v.dim)
            F = self.mat_facts(dim)
            return VMat(v.cls, dim, vmap(v.body, lambda p, b, q: F.simplify(p)))
        if isinstance(v, VVec):
            size = self.simp(v.size)
            F0 = self.st.facts
            b = BV(v.h)
            self.st.facts = Facts(F0.ges + (P(b), size - 1 - P(b)), F0.sub, F0.bools)
            try: body = self.tidy(v.body)
            finally: self.st.facts = F0
            return VVec(v.h, size, body, v.et)
        if isinstance(v, VObj): return VObj(v.cls, {k: self.tidy(x) for k, x in v.f.items()})
        if isinstance(v, Poly): return self.simp(v)
        return v
    # ------------------------------------------------------------------ control
    def die(self, kind, val=None, where=None):
        self.exits.append(Exit(kind, self.st.live, self.st.heap, self.st.facts, val, where))
        raise DeadPath()
    def throw(self, tname, val=None, where=None, cond=None):
        """throw when cond (default: always)"""
        if cond is None: self.die('throw', (tname, val), where or self.where())
        cond = self.simp(cond)
        if cond.const() == 0: return
        self.branch(cond, lambda: self.die('throw', (tname, val), where or self.where()), lambda: None)
    def branch(self, c, fa, fb):
        c = self.simp(c)
        k = c.const()
        if k is not None: return fa() if k else fb()
        s0 = self.st
        res = []
        for f, cond in ((fa, c), (fb, 1 - c)):
            s = s0.copy(); s.facts = s0.facts.assume(cond); s.live = s0.live * cond
            self.st = s
            try: r = f(); res.append((self.st, r))
            except DeadPath: res.append(None)
        a, b = res
        if a is None and b is None: raise DeadPath()
        if a is None: self.st = b[0]; return b[1]
        if b is None: self.st = a[0]; return a[1]
        sa, ra = a; sb, rb = b
        heap = dict(sa.heap)
        for r, v in sb.heap.items():
            if r in heap:
                if heap[r] is not v: heap[r] = vite(c, heap[r], v)
            else: heap[r] = v
        self.st = St(heap, s0.facts, sa.live + sb.live)
        return self.merge_res(c, ra, rb)
    def merge_res(self, c, a, b):
        if a is None and b is None: return None
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV):
                if a == b: return a
                return VIte(c, a, b)
            a = self.load(a) if isinstance(a, LV) else a
            b = self.load(b) if isinstance(b, LV) else b
        if a is None or b is None: return a if b is None else b
        return vite(c, a, b)
    def merge_exits(self, exs, base_facts):
        """join mutually exclusive states [(cond, heap, facts, val)] -> heap, facts, val, live"""
        if len(exs) == 1: return exs[0].heap, exs[0].facts, exs[0].val, exs[0].cond
        acc = exs[-1]
        heap = dict(acc.heap); val = acc.val; live = acc.cond
        for e in reversed(exs[:-1]):
            c = e.cond
            for r, v in e.heap.items():
                if r in heap:
                    if heap[r] is not v: heap[r] = vite(c, v, heap[r])
                else: heap[r] = v
            val = self.merge_res(c, e.val, val)
            live = live + c
        return heap, base_facts, val, live
    def scope(self, f):
        """run f in a fresh exit scope; returns (normal?, result, exits) with conditions relative to the scope entry"""
        saved_ex = self.exits; saved_live = self.st.live
        self.exits = []; self.st.live = ONE
        self.livestack.append(saved_live)
        try:
            try: r = f(); ok = True
            except DeadPath: r = None; ok = False
            return ok, r, self.exits, saved_live
        finally: self.exits = saved_ex; self.livestack.pop()
    # ------------------------------------------------------------------ calls
    def call_fn(self, tu, fid, this, args, caps=None, cthis=None):
        """inline a function with evaluated arguments (LVs for references, Values otherwise)"""
        b = self.p.body(tu, fid)
        if b is None: raise Unsupported('no body for ' + self.p.fd(tu, fid)['qn'])
        tu, fid, body = b
        self.depth += 1
        if self.depth > 60: self.depth -= 1; raise Unsupported('recursion too deep')
        self.visited.add((tu, fid))
        fr = Frame(tu, fid, this)
        fd = self.p.fd(tu, fid)
        fr.rett = self.p.type(tu, fd['rt'])
        if caps:
            for k, v in caps.items(): fr.env[k] = v if isinstance(v, LV) else self.newroot(v, 'cap')
        if cthis is not None: fr.this = cthis
        ps = body['p']
        for i, prm in enumerate(ps):
            if i >= len(args): break
            a = args[i]; pt = self.p.type(tu, prm['t'])
            if pt['k'] in ('ref', 'rref'):
                if not isinstance(a, LV) and not (isinstance(a, VIte) and isinstance(a.a, (LV, VIte)) ): a = self.newroot(a, 'tmp')
                fr.env[prm['id']] = a
            else:
                if isinstance(a, LV): a = self.load(a)
                fr.env[prm['id']] = self.newroot(a, prm['n'] or 'p')
        self.frames.append(fr)
        f0 = self.st.facts
        try:
            def run():
                if 'inits' in body: self.run_inits(body)
                self.exec(body['body'])
            ok, _, exits, live0 = self.scope(run)
        finally:
            self.frames.pop(); self.depth -= 1
        rets = [e for e in exits if e.kind == 'return']
        if ok: rets.append(Exit('return', self.st.live, self.st.heap, self.st.facts, None))
        for e in exits:
            if e.kind != 'return': e.cond = live0 * e.cond; self.exits.append(e)
        if not rets: raise DeadPath()
        heap, facts, val, live = self.merge_exits(rets, f0)
        if len(rets) > 1 and any(e.kind == 'throw' for e in exits):
            facts = f0.assume(live)
        self.st = St(heap, facts, live0 * live)
        return val
    def run_inits(self, body):
        for ini in body['inits']:
            self.fr.line = ini.get('line', 0)
            e = ini['e']
            if ini.get('deleg'):
                self.construct_into(self.fr.this, e); continue
            if 'base' in ini:
                v = self.rv(e)
                cur = self.load(self.fr.this)
                if isinstance(cur, VMat):
                    if isinstance(v, VObj) and 'dim_' in v.f:
                        d = v.f['dim_']
                        self.store(self.fr.this, VMat(cur.cls, (d.f['x'], d.f['y'], d.f['z']), cur.body))
                elif isinstance(v, VObj): self.store(self.fr.this, VObj(cur.cls, {**cur.f, **v.f}))
                continue
            ft = self.ty(ini['t'])
            if ft['k'] in ('ref', 'rref'):
                self.store(self.fr.this.sub(('f', ini['n'])), VRef(self.lv(e))); continue
            if e is None: continue
            v = self.rv(e)
            if ini.get('chain') and False: pass
            if ini.get('n') == '' : continue
            cur = self.load(self.fr.this)
            if isinstance(cur, VObj) and ini['n'] not in cur.f and isinstance(v, VList):
                # union alias (data{})
                vals = list(v.a)
                self.store(self.fr.this, VObj(cur.cls, {**cur.f, **{c: (vals[i] if i < len(vals) else ZERO) for i, c in enumerate('xyz')}}))
                continue
            if isinstance(cur, VMat) and ini['n'] == 'values_':
                if isinstance(v, VVec):
                    size = cur.dim[0] * cur.dim[1] * cur.dim[2]
                    if not self.same(v.size, size): self.events.append(('size-mismatch', self.where(), v.size, size))
                    self.store(self.fr.this, self.from_flat(cur, v))
                continue
            self.store(self.fr.this.sub(('f', ini['n'])), v)
    def construct_into(self, lv, e):
        """evaluate a constructor expression directly into lv"""
        while e['k'] in ('tmp', 'xv'): e = e['e']
        if e['k'] == 'ctor':
            v = self.do_ctor(e, target=lv)
            if v is not None: self.store(lv, v)
        else: self.store(lv, self.rv(e))
    def do_ctor(self, e, target=None):
        tu = self.fr.tu
        fd = self.p.fd(tu, e['f']); ty = self.sty(e['t'])
        return self.ctor(tu, e['f'], ty, tu, [self.arg(a) for a in e['a']], e, target)
    def ctor(self, tu, fid, ty, ttu, args, e=None, target=None):
        """construct a value of type ty; args evaluated.  With target the object is built in place (returns None)"""
        fd = self.p.fd(tu, fid); qn = ty['qn']
        kind = fd.get('ctor')
        h = self.hooks.get('ctor ' + qn)
        if h:
            r = h(self, fd, ty, args)
            if r is not NotImplemented: return r
        if self.contract:
            r = self.contract_ctor(qn, fd, ty, ttu, args, e)
            if r is not None: return r
        b = self.p.body(tu, fid)
        trivial = fd.get('defaulted') or fd.get('implicit')
        if kind in ('copy', 'move') and (b is None or trivial):
            src = args[0]
            v = self.load(src) if isinstance(src, (LV,)) or (isinstance(src, VIte) and isinstance(src.a, LV)) else src
            if kind == 'move' and isinstance(src, LV): self.moved_from(src, v, ty, ttu)
            return v
        if not fd.get('in') and b is None or (ty.get('rec') is None):
            return self.lib_ctor(tu, fd, ty, ttu, args, e)
        if b is None:
            if kind == 'default' or not args:
                return self.implicit_default(ty, ttu)
            if fd.get('inh') is not None: return self.inherited(tu, fd, ty, ttu, args)
            raise Unsupported('constructor ' + fd['qn'])
        lv = target
        if lv is None: lv = self.newroot(None, 'obj')
        init = bool(e and e.get('zero'))
        self.st.heap[lv.root] = self.setp(self.st.heap[lv.root], lv.path, self.default(ty, ttu, init)) if lv.path else self.default(ty, ttu, init)
        if fd.get('inh') is not None:
            return self.inherited(tu, fd, ty, ttu, args) if target is None else self.store(target, self.inherited(tu, fd, ty, ttu, args))
        self.call_fn(tu, fid, lv, args)
        return None if target is not None else self.load(lv)
    def inherited(self, tu, fd, ty, ttu, args):
        base = fd['inh']; bfd = self.p.fd(tu, base)
        v = self.implicit_default(ty, ttu)
        bt = self.p.type(tu, bfd['ct'])
        bv = self.ctor(tu, base, bt, tu, args)
        return VObj(v.cls, {**v.f, **bv.f})
    def implicit_default(self, ty, tu):
        v = self.default(ty, tu)
        if ty.get('rec') is None or not isinstance(v, VObj): return v
        f = dict(v.f)
        for n, t, ini, tu2 in self.p.fields(tu, ty['rec']):
            ft = self.p.type(tu2, t)
            if ini is not None:
                fr = Frame(tu2, None, None); fr.fid = self.frames[-1].fid if self.frames else None
                self.frames.append(fr)
                try: f[n] = self.rv(ini)
                finally: self.frames.pop()
            elif ft['k'] == 'rec': f[n] = self.default_ctor(ft, tu2)
        return VObj(v.cls, f)
    def default_ctor(self, ty, tu):
        """default-construct a record by type"""
        if self.contract is True and ty["qn"] == MAT: return self.default(ty, tu)
        lib = self.lib_default(ty, tu, True, ())
        if lib is not None: return lib
        if ty.get('rec') is not None:
            r = self.p.tus[tu]['recs'][ty['rec']]
            for m in r.get('methods', []):
                fd = self.p.fd(tu, m)
                if fd.get('ctor') == 'default' and self.p.body(tu, m) and not fd.get('defaulted'):
                    # default arguments: find the constructor's declared defaults
                    return self.ctor_defaults(tu, m, ty, tu)
        return self.implicit_default(ty, tu)
    def ctor_defaults(self, tu, m, ty, ttu):
        b = self.p.body(tu, m)
        n = len(b[2]['p'])
        if n: 
            if ty['qn'].endswith('::Dim'): return VObj(self.cname(ty), {c: ZERO for c in 'xyz'})
            raise Unsupported('default arguments of ' + ty['s'])
        return self.ctor(tu, m, ty, ttu, [])
    def moved_from(self, lv, v, ty=None, tu=None):
        w = self.husk(v, ty, tu)
        if w is not v: self.store(lv, w)
    def husk(self, v, ty=None, tu=None):
        """what is left of a value that was moved from"""
        if isinstance(v, VMat): return VMat(v.cls, (ZERO, ZERO, ZERO), v.body)
        if isinstance(v, VVec): return VVec(v.h, ZERO, v.body, v.et)
        if isinstance(v, VObj) and ty is not None and ty.get('rec') is not None:
            if ty['qn'].endswith('::Dim'):
                if not self.dim_move_clears(): return v
                return VObj(v.cls, {k: ZERO if isinstance(x, Poly) else VList([ZERO] * len(x.a)) if isinstance(x, VList) else x for k, x in v.f.items()})
            f = dict(v.f); ch = False
            for n_, t, ini, tu2 in self.p.fields(tu, ty['rec']):
                ft = self.p.type(tu2, t)
                if n_ not in f or ft['k'] != 'rec' or ft['s'].startswith('const ') or ft.get('const'): continue
                w = self.husk(f[n_], ft, tu2)
                if w is not f[n_]: f[n_] = w; ch = True
            if ch: return VObj(v.cls, f)
        return v
    def dim_move_clears(self):
        """whether moving from a size object clears it (it has a move constructor of its own)"""
        r = getattr(self.p, '_dimmove', None)
        if r is None:
            r = True
            for ti, d in enumerate(self.p.tus):
                for i, fd in enumerate(d['fdecls']):
                    if fd and fd.get('ctor') == 'move' and fd['qn'] == 'my_cnn::Dim::Dim' and not fd.get('dep'):
                        r = not (fd.get('defaulted') or fd.get('implicit'))
            self.p._dimmove = r
        return r
    def arg(self, e):
        """evaluate an argument expression: LV for glvalues, Value for prvalues"""
        if e is None: return None
        if e.get('lv') or e['k'] in ('tmp', 'xv'): return self.lv(e)
        return self.rv(e)
    # ------------------------------------------------------------------ expressions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, LV) or (isinstance(v, VIte) and self.is_lvite(v)): return self.load(v)
        return v
    def is_lvite(self, v): return isinstance(v, VIte) and (isinstance(v.a, LV) or self.is_lvite(v.a))
    def lv(self, e):
        v = self.ev(e)
        if isinstance(v, LV) or self.is_lvite(v): return v
        return self.newroot(v, 'tmp')
    def num(self, e):
        v = self.rv(e)
        if not isinstance(v, Poly): raise Unsupported('number expected, got %s' % type(v).__name__)
        return v
    def cond(self, e):
        v = self.rv(e)
        if isinstance(v, Poly): return as_bool(v)
        if isinstance(v, VPtr): return P(v.lv is not None)
        if isinstance(v, VOpt): return v.has
        raise Unsupported('condition of type %s' % type(v).__name__)
    def ev(self, e):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('analysis budget')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None: raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('cls', '')))
        if e.get('l'): self.fr.line = e['l']
        return m(e)
    def x_int(self, e): return P(int(e['v']))
    def x_flt(self, e): return flt_lit(e['v'], self.ty(e['t']))
    def x_str(self, e): return VStr([e['v']])
    def x_null(self, e): return VPtr(None)
    def x_this(self, e): return VPtr(self.fr.this)
    def x_zero(self, e): return self.zero_of(e)
    def zero_of(self, e):
        ty = self.sty(e['t'])
        return self.default(ty, self.fr.tu, True)
    def x_ref(self, e):
        if e.get('dk') == 'func': return VFun(self.fr.tu, (e['f'],), {}, None, e['n'])
        if 'cv' in e: return P(e['cv'])
        lv = self.fr.env.get(e['id'])
        if lv is None:
            for f in reversed(self.frames[:-1]):
                pass
            if e.get('global') or e.get('static'): return self.global_lv(e)
            raise Unsupported('variable ' + e['n'])
        if isinstance(lv, tuple): return self.ev(lv[1])
        return lv
    def global_lv(self, e):
        key = (self.fr.tu, e['id'])
        if key in self.globals:
            lv = self.globals[key]
            if lv.root in self.st.heap: return lv
        for g in self.p.tus[self.fr.tu]['globals']:
            if g['id'] == e['id']:
                ty = self.sty(g['t'])
                if g.get('init') is not None:
                    lv = self.newroot(self.rv(g['init']), 'glob')
                else: lv = self.newroot(self.default(ty, self.fr.tu, True), 'glob')
                self.globals[key] = lv
                if g.get('tls'): self.tls[key] = True
                return lv
        nm = e.get('qn', e['n'])
        lv = self.globals.get(('lib', nm))
        if lv is None or lv.root not in self.st.heap: lv = self.newroot(self.lib_global(nm, self.sty(e['t'])), nm)
        self.globals[key] = self.globals[('lib', nm)] = lv
        return lv
    def x_load(self, e): return self.rv(e['e'])
    def x_xv(self, e): return self.ev(e['e'])
    def x_tmp(self, e):
        v = self.ev(e['e'])
        if isinstance(v, LV) or self.is_lvite(v): return v
        return self.newroot(v, 'tmp')
    def x_dinit(self, e): return self.ev(e['e'])
    def x_decay(self, e):
        if e['e']['k'] == 'str': return VStr([e['e']['v']])
        lv = self.ev(e['e'])
        if isinstance(lv, VStr) or (isinstance(lv, VIte) and not self.is_lvite(lv)): return lv
        if not isinstance(lv, LV): lv = self.newroot(lv)
        return VVIt(lv, ZERO)
    def x_arrcopy(self, e): return self.rv(e['e'])
    def x_mem(self, e):
        if e['arrow']:
            b = self.rv(e['b']); b = self.deref(b)
        else:
            b = self.ev(e['b'])
        if e.get('anon'): return b
        if not isinstance(b, LV) and not self.is_lvite(b):
            return self.step(b, ('f', e['n']))
        return self.field(b, e['n'])
    def field(self, b, n):
        if isinstance(b, VIte): return VIte(b.c, self.field(b.a, n), self.field(b.b, n))
        lv = b.sub(('f', n))
        try: v = self.load(b)
        except Unsupported: return lv
        if isinstance(v, VRef): b = v.lv; v = self.load(b); lv = b.sub(('f', n))
        if isinstance(v, VObj) and n in v.f and isinstance(v.f[n], VRef): return v.f[n].lv
        return lv
    def deref(self, v):
        if isinstance(v, LV): v = self.load(v)
        if isinstance(v, VPtr):
            if v.lv is None: raise Unsupported('null dereference')
            return v.lv
        if isinstance(v, VVIt): return self.vit_lv(v)
        if isinstance(v, VMIt): return self.mit_deref(v)
        if isinstance(v, VIte): return VIte(v.c, self.deref(v.a), self.deref(v.b))
        raise Unsupported('dereference of %s' % type(v).__name__)
    def vit_lv(self, v):
        return v.lv.sub(('e', self.simp(v.pos)))
    def x_mfn(self, e): raise Unsupported('member function reference')
    def x_idx(self, e):
        b = self.rv(e['b']) if not e['b'].get('lv') else self.ev(e['b'])
        i = self.num(e['i'])
        if isinstance(b, LV): return b.sub(('e', i))
        if isinstance(b, VVIt): return VVIt(b.lv, b.pos + i).lv.sub(('e', b.pos + i))
        if isinstance(b, VList): return self.step(b, ('e', i))
        raise Unsupported('subscript')
    def x_cond(self, e):
        c = self.cond(e['c'])
        islv = e.get('lv')
        return self.branch(c, lambda: self.ev(e['a']) if islv else self.rv(e['a']), lambda: self.ev(e['b']) if islv else self.rv(e['b']))
    def x_ilist(self, e):
        ty = self.sty(e['t'])
        if ty['k'] in ('int', 'uint', 'float', 'bool', 'enum', 'ptr'):
            return self.rv(e['a'][0]) if e['a'] else self.default(ty, self.fr.tu, True)
        if ty['k'] == 'arr':
            a = [self.rv(x) for x in e['a']]
            while len(a) < ty.get('n', len(a)): a.append(self.default(self.p.type(self.fr.tu, ty['to']), self.fr.tu, True))
            return VList(a)
        if ty['k'] == 'rec':
            if ty['qn'] == 'std::array':
                if e['a'] and e['a'][0]['k'] == 'ilist': return self.x_ilist(dict(e['a'][0], t=e['a'][0]['t']))
                n = self.targ(ty, self.fr.tu, 1)
                return VList([self.default(self.targ(ty, self.fr.tu), self.fr.tu, True) for _ in range(n)]) if not e['a'] else self.rv(e['a'][0])
            if ty.get('rec') is not None:
                fs = self.p.fields(self.fr.tu, ty['rec'])
                f = {}
                for i, (n, t, ini, tu2) in enumerate(fs):
                    ft = self.p.type(tu2, t)
                    if i < len(e['a']) and e['a'][i] is not None:
                        f[n] = VRef(self.lv(e['a'][i])) if ft['k'] in ('ref', 'rref') else self.rv(e['a'][i])
                    else: f[n] = self.default(ft, tu2, True)
                return VObj(self.cname(ty), f)
            if len(e['a']) == 1: return self.rv(e['a'][0])
        raise Unsupported('initializer list for ' + ty['s'])
    def x_lambda(self, e):
        caps = {}; this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.fr.this; continue
            if c['byref']:
                caps[c['id']] = self.lv(c['init']) if 'init' in c and not c.get('initcap') else self.lv(c['init'])
            else:
                caps[c['id']] = self.rv(c['init'])
        return VFun(self.fr.tu, tuple(e['ops']), caps, this, 'lambda@%d' % e.get('l', 0))
    def x_un(self, e):
        op = e['op']
        if op == '__extension__': return self.ev(e['e'])
        if op == '&':
            v = self.ev(e['e'])
            if isinstance(v, VFun): return v
            if not isinstance(v, LV): v = self.newroot(v)
            if v.path and v.path[-1][0] == 'e': return VVIt(LV(v.root, v.path[:-1]), v.path[-1][1])
            return VPtr(v)
        if op == '*':
            v = self.rv(e['e'])
            if isinstance(v, VFun): return v
            return self.deref(v)
        if op in ('++', '--'):
            lv = self.lv(e['e']); old = self.load(lv)
            d = 1 if op == '++' else -1
            ty = self.sty(e['e']['t'])
            if isinstance(old, Poly): new = self.wrapt(old + d, ty)
            elif isinstance(old, VVIt): new = VVIt(old.lv, old.pos + d)
            elif isinstance(old, VMIt): new = VMIt(old.lv, old.pos + d)
            else: raise Unsupported('increment')
            self.store(lv, new)
            return old if e.get('post') else lv
        if op == '!': return 1 - self.cond(e['e'])
        v = self.rv(e['e'])
        if not isinstance(v, Poly): raise Unsupported('unary ' + op)
        if op == '-': return self.wrapt(-v, self.sty(e['t']))
        if op == '+': return v
        if op == '~': return self.wrapt(-v - 1, self.sty(e['t']))
        raise Unsupported('unary ' + op)
    def wrapt(self, p, ty):
        """wrap to the machine type"""
        k = ty['k']
        if k == 'bool': return as_bool(p)
        if k in ('int', 'uint'):
            w = ty['w']
            if k == 'int' and w >= 32: return p
            r = wrap(('u' if k == 'uint' else 'i') + str(w), p)
            if not r.t or r.const() is not None: return r
            a = single(r)
            if a is not None and a.k == 'wrap': return self.simp(r)
            if any(x.k == 'wrap' for m in r.t for x, _ in m): return self.simp(r)
            return r
        return p
    def x_bin(self, e):
        op = e['op']
        if op == ',': self.ev(e['a']); return self.ev(e['b'])
        if op == '&&': return self.branch(self.cond(e['a']), lambda: self.cond(e['b']), lambda: ZERO)
        if op == '||': return self.branch(self.cond(e['a']), lambda: ONE, lambda: self.cond(e['b']))
        if op == '=':
            # right operand first
            v = self.rv(e['b']); lv = self.lv(e['a'])
            self.store(lv, v); return lv
        a = self.rv(e['a']); b = self.rv(e['b'])
        return self.arith(op, a, b, self.sty(e['t']))
    def arith(self, op, a, b, ty):
        if isinstance(a, VIte) and not isinstance(b, VIte): return vite(a.c, self.arith(op, a.a, b, ty), self.arith(op, a.b, b, ty))
        if isinstance(b, VIte): return vite(b.c, self.arith(op, a, b.a, ty), self.arith(op, a, b.b, ty))
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op in ('<', '<=', '>', '>=', '==', '!='):
                return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': lambda x, y: 1 - eq(x, y)}[op](a, b)
            if op == '+': r = a + b
            elif op == '-': r = a - b
            elif op == '*': r = a * b
            elif op == '/':
                if ty['k'] == 'float': r = a * inv(b)
                else:
                    self.oblige('division by a non-zero value', 1 - eq0(b))
                    r = self.simp(idiv(a, b))
            elif op == '%':
                self.oblige('division by a non-zero value', 1 - eq0(b)); r = self.simp(imod(a, b))
            elif op in ('<<', '>>', '&', '|', '^'): r = self.bitop(op, a, b)
            else: raise Unsupported('operator ' + op)
            return self.wrapt(r, ty)
        if isinstance(a, (VVIt, VMIt)):
            if isinstance(b, Poly) and op in ('+', '-'):
                d = b if op == '+' else -b
                return type(a)(a.lv, a.pos + d)
            if isinstance(b, type(a)):
                if op == '-': return a.pos - b.pos
                if op in ('<', '<=', '>', '>=', '==', '!='): return self.arith(op, a.pos, b.pos, ty)
        if op in ('==', '!='):
            if isinstance(a, VPtr) and isinstance(b, VPtr):
                r = P(a.lv == b.lv)
                return r if op == '==' else 1 - r
        raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
    def bitop(self, op, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            ca, cb = int(ca), int(cb)
            return P({'<<': lambda: ca << cb, '>>': lambda: ca >> cb, '&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb}[op]())
        if a.isbool01() and b.isbool01():
            if op == '&': return a * b
            if op == '|': return OR(a, b)
            if op == '^': return a + b - 2 * a * b
        if op == '<<' and cb is not None: return a.scale(2 ** int(cb))
        return fn('bit' + op, a, b)
    def x_casg(self, e):
        op = e['op'][:-1]
        b = self.rv(e['b']); lv = self.lv(e['a']); a = self.load(lv)
        lt_ = self.sty(e['a']['t'])
        if isinstance(a, Poly):
            ct = self.ty(e['ct']); clt = self.ty(e.get('clt', e['ct']))
            a = self.conv(a, lt_, clt)
            r = self.arith(op, a, b, ct)
            r = self.conv(r, ct, lt_)
        else: r = self.arith(op, a, b, lt_)
        self.store(lv, r)
        return lv
    def conv(self, v, f, t):
        """numeric conversion"""
        if not isinstance(v, Poly): return v
        fk, tk = f['k'], t['k']
        if tk == 'bool': return as_bool(v)
        if tk in ('int', 'uint', 'enum'):
            if fk == 'float': v = self.simp(fn('trunc', v))
            if tk == 'enum': return v
            return self.wrapt(v, t)
        if self.narrowing and tk == 'float' and t.get('w') == 32 and fk == 'float' and f.get('w') == 64 and v.const() is None: return self.simp(narrow(v))
        return v
    def x_cast(self, e):
        ck = e['ck']
        if ck in ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(self.num(e['e']), self.sty(e['e']['t']), self.sty(e['t']))
        if ck == 'PointerToBoolean': return self.cond(e['e'])
        if ck == 'ToVoid': self.ev(e['e']); return VOID
        if ck == 'NullToPointer': return VPtr(None)
        if ck == 'BaseToDerived': return self.ev(e['e'])
        if ck == 'Dynamic': return self.ev(e['e'])
        if ck == 'BitCast': return self.bitcast(e)
        if ck in ('VectorSplat', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): return self.rv(e['e'])
        raise Unsupported('cast ' + ck)
    def bitcast(self, e):
        v = self.rv(e['e'])
        t = self.sty(e['t'])
        if isinstance(v, VPtr) and v.lv is not None and t['k'] == 'ptr':
            to = self.p.type(self.fr.tu, t['to']); f = self.sty(e['e']['t'])
            fr = self.p.type(self.fr.tu, f['to']) if f['k'] == 'ptr' else None
            if fr is not None and to.get('w') == 8 and fr['k'] in ('int', 'uint') and to['k'] in ('int', 'uint'): return VVIt(v.lv.sub(('raw', fr['w'] // 8, fr['k'])), ZERO)
        return v
    def to_bytes(self, v, n):
        """little-endian bytes of an integer"""
        if not isinstance(v, Poly): raise Unsupported('bytes of %s' % type(v).__name__)
        c = v.const()
        if n == 1: return [self.simp(wrap('u8', v))]
        if c is not None: return [P((int(c) >> (8 * i)) & 255) for i in range(n)]
        a = single(v)
        if a is not None and a.k == 'app' and a.a[0] in ('bytes', 'sbytes') and len(a.a[1]) == n: return [P(x) for x in a.a[1]]
        return [app('byteof', [v, P(i)], True, False, True) for i in range(n)]
    def from_bytes(self, a, n, k):
        if n == 1: return self.simp(wrap('i8' if k == 'int' else 'u8', P(a[0])))
        if all(x.const() is not None for x in a):
            r = sum(int(x.const()) << (8 * i) for i, x in enumerate(a))
            return P(r - (1 << 8 * n) if k == 'int' and r >> (8 * n - 1) else r)
        v = None; a = [self.simp(wrap('u8', P(x))) for x in a]
        for i, x in enumerate(a):
            y = single(x)
            if y is None or y.k != 'app' or y.a[0] != 'byteof' or P(y.a[1][1]).const() != i or (v is not None and y.a[1][0] != v): v = None; break
            v = y.a[1][0]
        if v is not None: return P(v)
        return app('sbytes' if k == 'int' else 'bytes', a, True, False, k != 'int')
    def x_throw(self, e):
        if e.get('e') is None: raise Unsupported('rethrow')
        t = self.ty(e['tt'])
        v = None
        try: v = self.rv(e['e'])
        except Unsupported: v = None
        self.die('throw', (t.get('qn', t['s']), v), self.where())
    def x_newx(self, e):
        at = self.ty(e['at'])
        if e.get('array'): raise Unsupported('array new')
        v = self.rv(e['init']) if e.get('init') is not None else self.default(at, self.fr.tu)
        return VPtr(self.newroot(v, 'new'))
    def x_delx(self, e): self.ev(e['e']); return VOID
    def x_ctor(self, e): return self.do_ctor(e)
    def x_inhctor(self, e): raise Unsupported('inherited constructor')
    def x_unk(self, e):
        if e.get('cls') in ('SourceLocExpr', 'PredefinedExpr'): return VStr([('opaque', sym('srcloc'))])
        raise Unsupported('expression ' + e.get('cls', '?'))
    # calls
    def x_call(self, e):
        if 'f' not in e:
            f = self.rv(e['fe'])
            return self.invoke(f, [self.arg(a) for a in e['a']])
        return self.dispatch(e, None, None, [a for a in e['a']])
    def x_mcall(self, e):
        if 'f' not in e: raise Unsupported('call through member pointer')
        if e['arrow']:
            pv = self.rv(e['o'])
            o = self.deref_obj(pv)
        else: o = self.lv(e['o'])
        return self.dispatch(e, o, None, e['a'], virt=not e.get('nonvirt'))
    def deref_obj(self, pv): return self.deref(pv)
    def x_ocall(self, e):
        if 'f' not in e:
            raise Unsupported('indirect operator call')
        fd = self.p.fd(self.fr.tu, e['f'])
        if fd.get('cls') is not None and not fd.get('static'):
            o = e['a'][0]; rest = e['a'][1:]
            if e['op'] in ('=', '+=', '-=') and rest:
                # right operand is evaluated first
                args = [self.arg(a) for a in rest]
                return self.dispatch(e, self.lv(o), args, None)
            return self.dispatch(e, self.lv(o), None, rest)
        return self.dispatch(e, None, None, e['a'])
    def dispatch(self, e, obj, args, argx, virt=True):
        tu = self.fr.tu; fd = self.p.fd(tu, e['f'])
        if args is None: args = [self.arg(a) for a in argx]
        line = self.fr.line
        r = self.call(tu, e['f'], obj, args, e, virt)
        self.fr.line = line
        return r
    def call(self, tu, fid, obj, args, e=None, virt=True):
        fd = self.p.fd(tu, fid); qn = fd['qn']
        h = self.hooks.get(qn) or (self.hooks.get(re.sub('<.*>', '', qn)) if self.hooks and '<' in qn else None)
        if h is not None:
            r = h(self, fd, obj, args)
            if r is not NotImplemented: return r
        if isinstance(obj, VIte) and self.is_lvite(obj):
            return self.branch(obj.c, lambda: self.call(tu, fid, obj.a, args, e, virt), lambda: self.call(tu, fid, obj.b, args, e, virt))
        if obj is not None and fd.get('cls') and self.p.type(tu, fd['ct']).get('lambda'):
            f = self.load(obj)
            if isinstance(f, VIte): return self.branch(f.c, lambda: self.call(tu, fid, self.newroot(f.a), args, e), lambda: self.call(tu, fid, self.newroot(f.b), args, e))
            if isinstance(f, VFun): return self.call_fn(tu, fid, None, args, f.caps, f.this)
        if self.contract and fd.get('cls'):
            r = self.contract_call(tu, fd, obj, args, e)
            if r is not NotImplemented: return r
        if fd.get('virtual') and virt and obj is not None:
            t = self.vtarget(tu, fid, fd, obj)
            if t is not None:
                r = t(args) if callable(t) else None
                if callable(t): return r
                tu, fid = t; fd = self.p.fd(tu, fid)
        if fd.get('asg') in ('copy', 'move') and (fd.get('defaulted') or fd.get('implicit')):
            src = args[0]; v = self.load(src) if isinstance(src, LV) or self.is_lvite(src) else src
            if fd['asg'] == 'move' and isinstance(src, LV) and src != obj: self.moved_from(src, v, self.p.type(tu, fd['ct']), tu)
            self.assign_value(obj, v)
            return obj
        if fd.get('in') and self.p.body(tu, fid): return self.call_fn(tu, fid, obj, args)
        return self.lib_call(tu, fd, obj, args, e)
    def assign_value(self, obj, v):
        self.store(obj, v)
    def vtarget(self, tu, fid, fd, obj):
        v = self.load(obj)
        if isinstance(v, VOpq):
            h = self.vhooks.get(v.kind)
            if h: return lambda args: h(self, fd, obj, v, args)
            return None
        if not isinstance(v, VObj): return None
        # dynamic class
        d = self.p.tus[tu]
        for r in d['recs']:
            if r and r.get('s') == v.cls:
                return self.find_override(tu, r, fd, fid)
        for t2, d2 in enumerate(self.p.tus):
            for r in d2['recs']:
                if r and r.get('s') == v.cls: return self.find_override(t2, r, fd, fid)
        return None
    def find_override(self, tu, r, fd, fid):
        for m in r.get('methods', []):
            f = self.p.fd(tu, m)
            if f['n'] == fd['n'] and len(f['pt']) == len(fd['pt']) and not f.get('pure') and f.get('const') == fd.get('const'): return (tu, m) if self.p.body(tu, m) else None
        for b in r.get('bases', []):
            if 'rec' in b:
                x = self.find_override(tu, self.p.tus[tu]['recs'][b['rec']], fd, fid)
                if x: return x
        return None
    def invoke(self, f, args):
        if isinstance(f, LV): f = self.load(f)
        if isinstance(f, VIte): return self.branch(f.c, lambda: self.invoke(f.a, args), lambda: self.invoke(f.b, args))
        if isinstance(f, VPtr) and f.lv is not None: return self.invoke(f.lv, args)
        if not isinstance(f, VFun): raise Unsupported('call of %s' % type(f).__name__)
        fids = f.fids
        if len(fids) > 1:
            fids = [x for x in fids if len(self.p.fd(f.tu, x)['pt']) == len(args)]
            if len(fids) > 1:
                # generic lambda with several instantiations: the first whose parameter kinds fit (bodies are the same text)
                fids = fids[:1]
        if not fids: raise Unsupported('generic lambda')
        fid = fids[0]
        fd = self.p.fd(f.tu, fid)
        if fd.get('cls') and not fd.get('static'): return self.call_fn(f.tu, fid, None, args, f.caps, f.this)
        return self.call(f.tu, fid, None, args)
    def addr_of(self, lv): return VPtr(lv)
    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None: return
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('analysis budget')
        if s.get('l'): self.fr.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None: raise Unsupported('statement ' + s['k'] + ' ' + str(s.get('cls', '')))
        m(s)
    def s_null(self, s): pass
    def s_expr(self, s): self.ev(s['e'])
    def s_block(self, s):
        ids = s.get('_locks')
        if ids is None:
            ids = s['_locks'] = [v['id'] for x in s['s'] if x and x['k'] == 'decl' for v in x['v'] if self.ty(v['t']).get('qn') in LOCKS]
        if not ids:
            for x in s['s']: self.exec(x)
            return
        n0 = len(self.exits); env0 = {i: self.fr.env.pop(i, None) for i in ids}
        try:
            for x in s['s']: self.exec(x)
            self.release(ids)
        finally:
            st = self.st
            for e in self.exits[n0:]:
                self.st = St(dict(e.heap), e.facts, e.cond)
                self.release(ids); e.heap = self.st.heap
            self.st = st
    def release(self, ids):
        """locks declared in a block are released when it is left"""
        for i in ids:
            lv = self.fr.env.get(i)
            if isinstance(lv, LV) and lv.root in self.st.heap and 'lock' in self.vhooks:
                v = self.load(lv)
                if isinstance(v, VObj) and v.cls == 'lock': self.vhooks['lock'](self, None, lv, v, [])
    def s_decl(self, s):
        for v in s['v']: self.declare(v)
    def declare(self, v):
        ty = self.ty(v['t'])
        if v.get('static'):
            key = (self.fr.tu, v['id'])
            if key in self.globals and self.globals[key].root in self.st.heap:
                self.fr.env[v['id']] = self.globals[key]; return
        if ty['k'] in ('ref', 'rref'):
            lv = self.lv(v['init'])
        else:
            if v.get('init') is not None: val = self.rv(v['init'])
            elif ty['k'] == 'rec': val = self.default_ctor(ty, self.fr.tu)
            else: val = self.default(ty, self.fr.tu)
            lv = val.lv if isinstance(val, VRef) and getattr(val, 'shared', False) else self.newroot(val, v['n'])
        self.fr.env[v['id']] = lv
        if v.get('static'):
            self.globals[(self.fr.tu, v['id'])] = lv
            if v.get('tls'): self.tls[(self.fr.tu, v['id'])] = True
        if 'bind' in v:
            for b in v['bind']:
                if b.get('e') is None: raise Unsupported('structured binding')
                self.fr.env[b['id']] = ('expr', b['e'])
    def s_if(self, s):
        if s.get('init'): self.exec(s['init'])
        if s.get('var'): self.declare(s['var'])
        c = self.cond(s['c'])
        self.branch(c, lambda: self.exec(s['a']), lambda: self.exec(s['b']))
    def s_return(self, s):
        v = None
        if s.get('e') is not None:
            if self.fr.rett and self.fr.rett['k'] in ('ref', 'rref'): v = self.lv(s['e'])
            else: v = self.rv(s['e'])
        self.die('return', v)
    def s_break(self, s): self.die('break')
    def s_continue(self, s): self.die('continue')
    def s_switch(self, s):
        if s.get('init'): self.exec(s['init'])
        if s.get('var'): self.declare(s['var'])
        v = self.num(s['c'])
        body = s['b']
        items = body['s'] if body['k'] == 'block' else [body]
        # flatten labels
        segs = []   # (labels, stmts)
        for st in items:
            labs = []
            while st is not None and st['k'] in ('case', 'default'):
                labs.append(None if st['k'] == 'default' else st['c'])
                st = st['b']
            if labs or not segs: segs.append((labs, [st]))
            else: segs[-1][1].append(st)
        vals = []
        for labs, _ in segs:
            for l in labs:
                if l is not None: vals.append(self.num(l))
        anyc = ZERO
        conds = []
        for labs, _ in segs:
            c = ZERO
            for l in labs:
                if l is not None: c = OR(c, eq(v, self.num(l)))
            conds.append(c); anyc = OR(anyc, c)
        for i, (labs, _) in enumerate(segs):
            if None in labs: conds[i] = OR(conds[i], 1 - anyc)
        def run_from(i):
            for j in range(i, len(segs)):
                for st in segs[j][1]: self.exec(st)
        def chain(i):
            if i == len(segs): return
            self.branch(conds[i], lambda: run_from(i), lambda: chain(i + 1))
        self.breakable(lambda: chain(0))
    def breakable(self, f):
        f0 = self.st.facts
        ok, r, exits, live0 = self.scope(f)
        outs = [e for e in exits if e.kind == 'break']
        if ok: outs.append(Exit('n', self.st.live, self.st.heap, self.st.facts))
        for e in exits:
            if e.kind != 'break': e.cond = live0 * e.cond; self.exits.append(e)
        if not outs: raise DeadPath()
        heap, facts, val, live = self.merge_exits(outs, f0)
        self.st = St(heap, facts, live0 * live)
    def s_try(self, s):
        f0 = self.st.facts
        ok, r, exits, live0 = self.scope(lambda: self.exec(s['b']))
        outs = []
        if ok: outs.append(Exit('n', self.st.live, self.st.heap, self.st.facts))
        for e in exits:
            if e.kind == 'throw':
                h = self.handler(s, e)
                if h is not None:
                    self.st = St(dict(e.heap), e.facts, e.cond)
                    saved = self.exits; self.exits = []
                    try:
                        try:
                            if h.get('v'):
                                self.fr.env[h['v']['id']] = self.newroot(e.val[1] if e.val[1] is not None else VOpq('exception', (e.val[0],)), 'exc')
                            self.exec(h['b'])
                            outs.append(Exit('n', self.st.live, self.st.heap, self.st.facts))
                        except DeadPath: pass
                        sub = self.exits
                    finally: self.exits = saved
                    for x in sub: x.cond = live0 * x.cond; self.exits.append(x)
                    continue
            e.cond = live0 * e.cond; self.exits.append(e)
        if not outs: raise DeadPath()
        heap, facts, val, live = self.merge_exits(outs, f0)
        self.st = St(heap, facts, live0 * live)
    def handler(self, s, e):
        for h in s['h']:
            if 'v' not in h: return h
            t = self.sty(h['t'])
            if exc_isa(e.val[0], t.get('qn', t['s'])): return h
        return None
    def s_for(self, s):
        def go():
            if s.get('init'): self.exec(s['init'])
            def cond():
                if s.get('var'): self.declare(s['var'])
                return self.cond(s['c']) if s.get('c') is not None else ONE
            self.loop(cond, lambda: self.exec(s['b']), lambda: self.ev(s['inc']) if s.get('inc') is not None else None, s)
        go()
    def s_while(self, s):
        def cond():
            if s.get('var'): self.declare(s['var'])
            return self.cond(s['c'])
        self.loop(cond, lambda: self.exec(s['b']), lambda: None, s)
    def s_do(self, s):
        # do B while(c)  ==  B; while(c) B   (break/continue handled by a flag iteration)
        first = self.newroot(ONE, 'dofirst')
        def cond():
            f = self.load(first)
            return self.branch(f, lambda: ONE, lambda: self.cond(s['c']))
        def body():
            self.store(first, ZERO); self.exec(s['b'])
        # run the first iteration separately
        self.breakable_body(body)
        self.loop(lambda: self.cond(s['c']), lambda: self.exec(s['b']), lambda: None, s)
    def breakable_body(self, body):
        """one iteration: continue joins the end; break is not supported here"""
        f0 = self.st.facts
        ok, r, exits, live0 = self.scope(body)
        outs = [e for e in exits if e.kind == 'continue']
        if any(e.kind == 'break' for e in exits): raise Unsupported('break in do-while')
        if ok: outs.append(Exit('n', self.st.live, self.st.heap, self.st.facts))
        for e in exits:
            if e.kind != 'continue': e.cond = live0 * e.cond; self.exits.append(e)
        if not outs: raise DeadPath()
        heap, facts, val, live = self.merge_exits(outs, f0)
        self.st = St(heap, facts, live0 * live)
    def s_rfor(self, s):
        if s.get('init'): self.exec(s['init'])
        self.declare(s['range']); self.declare(s['begin']); self.declare(s['end'])
        def body():
            self.declare(s['v']); self.exec(s['b'])
        self.loop(lambda: self.cond(s['c']), body, lambda: self.ev(s['inc']), s)

    # loops ----------------------------------------------------------------
    def loop(self, cond, body, inc, node=None):
        from .loops import run_loop
        run_loop(self, cond, body, inc, node)

EXC_BASE = {'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
            'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
            'std::underflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception', 'std::bad_optional_access': 'std::exception',
            'my_cnn::MatrixSizeException': 'std::exception', 'my_cnn::MatrixTransformException': 'std::exception', 'my_cnn::ModelLayerException': 'std::exception'}
def exc_isa(t, base):
    while t is not None:
        if t == base: return True
        t = EXC_BASE.get(t)
    return False

def narrow(v):
    """a double rounded to float; numbers known to fit stay what they are"""
    if v.isint(): return v
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'fn' and m[0][0].a[0] == 'float32': return v
    return fn('float32', v)

def flt_lit(v, ty):
    """decimal meaning of a floating literal: the shortest decimal that denotes the same value in the literal's type"""
    if isinstance(v, (int, float)):
        f = float(v)
        if ty['k'] == 'float' and ty.get('w') == 32:
            import struct
            for prec in range(1, 10):
                s = '%.*g' % (prec, f)
                if struct.pack('f', float(s)) == struct.pack('f', f): return P(Fraction(s))
        return P(Fraction(repr(f)))
    return P(Fraction(str(v)))
