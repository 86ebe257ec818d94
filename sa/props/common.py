"""Specifications over analysed entries: outcome conditions, shapes, element values, memory obligations."""
import time, traceback
from ..terms import *
from .. import terms as T
from ..facts import Facts
from ..values import *
from ..harness import H, Out, decide_eq, has_unknown, separate
from ..interp import exc_isa, Exit, DeadPath
from ..ctx import Broken

DM = 'my_cnn::SimpleMatrix<double>'
def n(name): return sym(name, True, False, True)          # non-negative integer
def z(name): return sym(name, True, False, False)         # integer
def r(name): return sym(name, False, False, False)        # real
def b(name): return sym(name, True, True, True)           # truth value
X0, Y0, Z0 = [P(m) for m in MB]
def mat(name, dims, cls=DM, isint=False):
    return VMat(cls, tuple(P(d) for d in dims), app(name, [X0, Y0, Z0], isint))
def ssum(bounds, f):
    """Sum over a box of f(i1, .., in)"""
    vs = [fresh('s', 2) for _ in bounds]
    t = P(f(*[P(v) for v in vs]))
    for v, nn in zip(vs, bounds): t = mksum(v, P(nn), t)
    return t
def at(m, x, y, zz):
    """element of a matrix value"""
    return subst(m.body, dict(zip(MB, (P(x), P(y), P(zz)))))

T0 = time.time(); SOFT = 560; HARD = 700     # seconds a whole check may take before what is left is recorded as undecided
class Limit:
    def __init__(self, secs): self.secs = secs
    def __enter__(self): self.old = T.DEADLINE[0]; T.DEADLINE[0] = T.now() + self.secs; T.WALL[0] = T0 + SOFT
    def __exit__(self, *a): T.DEADLINE[0] = self.old

HINT = {}           # preferred constant of a size in instance 0 and 1
INST = [None]      # number of the instance being analysed (None: all sizes at once)
def pick(facts, given, k):
    """constant sizes satisfying the facts, for the analysis of one instance"""
    syms = {}
    def see(p, b=(), q=None):
        for m in P(p).t:
            for a, _ in m:
                for x in atoms_in(a): syms[x] = 1
        return p
    for f in facts: see(f)
    for v in given.values():
        if isinstance(v, (VMat, VVec)): vmap(v, lambda p, b, q: see(p) if q and str(q[-1]).startswith(('dim', 'size')) else p)
        elif isinstance(v, Poly): see(v)
        else:
            try: vmap(v, see)
            except Exception: pass
    vs = sorted([a for a in syms if a.k == 'sym' and a.isint and a.nn and not a.isbool], key=lambda a: a.key)
    fs = [P(f) for f in facts]
    doms = [[2, 3, 1, 4, 0, 5, 6], [3, 2, 1, 4, 0, 5, 6]] if k == 0 else [[1, 2, 0, 3, 4, 5], [2, 1, 0, 3, 4, 5]]
    s = {}; budget = [20000]
    def ok():
        for f in fs:
            g = subst(f, s)
            c = g.const()
            if c is not None and c < 0: return False
        return True
    def rec(i):
        budget[0] -= 1
        if budget[0] < 0: return False
        if i == len(vs): return True
        hint = HINT.get(vs[i].a[0])
        for d in (([hint[k]] if hint else []) + doms[i % 2]):
            s[vs[i]] = P(d)
            if ok() and rec(i + 1): return True
            del s[vs[i]]
        return False
    return s if rec(0) else None
def atoms_in(a, seen=None):
    seen = set() if seen is None else seen
    if a in seen: return seen
    seen.add(a)
    def f(p):
        if isinstance(p, Poly):
            for m in p.t:
                for x, _ in m: atoms_in(x, seen)
        elif isinstance(p, tuple):
            for x in p: f(x)
    f(a.a)
    return seen
def instances(c, f):
    """what is undecided for all sizes at once is analysed again for constant sizes; a difference found there is a violation"""
    if any(o['status'] == 'refuted' for o in c.obl) or not any(o['status'] == 'undecided' for o in c.obl): return
    for k in (0, 1):
        if time.time() - T0 > SOFT: return
        obl, an, notes = c.obl, dict(c.analysed), list(c.notes)
        INST[0] = k; expand(40); c.obl = []
        try: f(c)
        except (Unsupported, Broken, DeadPath, RecursionError, AssertionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e: pass
        finally: INST[0] = None; expand(0)
        new = c.obl; c.obl, c.analysed, c.notes = obl, an, notes
        c.count('instances with constant sizes analysed')
        bad = [o for o in new if o['status'] == 'refuted' and o.get('inst')]
        c.obl += bad
        if bad: return
NARROW = {'C%02d' % i for i in (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 20)}   # everything is double there: rounding to float loses digits
class Run:
    """one analysed entry"""
    fixed = False      # its hooks mention sizes: no instances
    def __init__(self, c, h, entry, facts, given, where, rule, tag=None, limit=240, contract=True, setup=None, skip=()):
        self.skip = skip; self.inst = None
        if INST[0] is not None:
            limit = min(limit, 60)
            self.inst = False
            if not self.fixed and not isinstance(facts, Facts):
                self.inst = pick(facts, given, INST[0])
                if self.inst is not None:
                    facts = [subst(P(f), self.inst) for f in facts]; facts = [f for f in facts if f.const() is None]
                    given = {k: vsubst(v, self.inst) for k, v in given.items()}
        self.c = c; self.h = h; self.entry = entry; self.where = where; self.rule = rule; self.tag = tag or entry.split('::')[-1]
        self.err = None
        c.count('entries analysed')
        self.limit = limit
        t0 = time.time()
        if INST[0] is not None and not self.inst: self.err = 'no instance'; self.F = Facts([]); return
        try:
            with Limit(limit):
                F = facts if isinstance(facts, Facts) else Facts([P(f) for f in facts])
                self.F = F
                I = self.I = h.interp(F, contract)
                I.inst = self.inst; I.given = given; I.narrowing = getattr(c, 'pid', None) in NARROW
                if setup: setup(I)
                self.out = h.run(I, entry, given)
        except Unsupported as e:
            I = getattr(self, 'I', None)
            self.err = 'not analysable: %s%s' % (e, ' at %s' % I.where() if I is not None and I.frames else '')
        except Broken as e: self.err = 'not compilable or not there: %s' % e
        except (DeadPath, RecursionError, AssertionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
            self.err = 'analysis stopped: %r %s' % (e, ''.join(traceback.format_exc().splitlines(True)[-4:]))
        if not self.err: self.memory()
    def s(self, p): return subst(P(p), self.inst) if self.inst else p
    def add(self, what, status, detail='', where=None):
        if INST[0] is not None:
            if status == 'refuted' and self.inst:
                self.c.add('%s: %s' % (self.tag, what), self.rule, where or self.where, status, 'for sizes %s: %s' % ({show_atom(a): show(v) for a, v in self.inst.items()}, detail))
                self.c.obl[-1]['inst'] = True
            return
        self.c.add('%s: %s' % (self.tag, what), self.rule, where or self.where, status, detail)
    def memory(self):
        bad = 0
        seen = set()
        for o in self.I.obl:
            if any(o['what'].startswith(k) for k in self.skip): continue
            if not o['ok']:
                G = o['facts']
                for vs, bs in o['loops']:
                    for v, bb in zip(vs, bs):
                        if bb is not None: G = G.upto(v, bb)
                try:
                    with Limit(20): o['ok'] = G.equal(o['live'] * (1 - o['cond']), ZERO)
                except Unsupported: pass
            if o['ok']: self.c.count('bounds obligations discharged'); continue
            key = (o['what'], o['where'])
            if key in seen: continue
            seen.add(key)
            self.c.count('bounds obligations open')
            st, det = 'undecided', show(o['cond'])[:400]
            cnd = o['cond']
            F = o['facts']
            for vs, bs in o['loops']:
                for v, bb in zip(vs, bs):
                    if bb is not None: F = F.upto(v, bb)
            if not has_unknown(cnd, o['live']):
                try:
                    with Limit(20): s = separate(F, 1 - cnd, extra=[o['live']] if o['live'].const() is None else [], tries=150)
                except Unsupported: s = None
                if s is not None:
                    st = 'refuted'; det = 'fails for %s: %s' % ({show_atom(k): str(v) for k, v in s[0].items()}, det)
            if st == 'refuted' or not getattr(self, 'quiet_mem', False):
                self.add(o['what'] + ' at ' + o['where'], st, det, o['where']); bad += 1
        if not bad: self.add('every access is inside its object', 'proved', '%d accesses' % len(self.I.obl))
    def eq(self, what, got, want, F=None, cond=None):
        """want may be a list of equivalent formulations"""
        wants = want if isinstance(want, (list, tuple)) else [want]
        if self.inst:
            wants = [self.s(w) for w in wants]; got = self.s(got); cond = self.s(cond) if cond is not None else None
            if F is not None and F is not self.F:
                gs = [self.s(g) for g in F.ges]
                if gs != list(F.ges):
                    # further assumptions about the chosen sizes
                    if any(g.const() is not None and g.const() < 0 for g in gs) or set(F.bools) - set(self.F.bools): return True
                    F = self.F.add_ge(*[g for g in gs if g.const() is None])
        if cond is not None:
            cond = (F or self.F).simplify(cond)
            got = P(got) * cond; wants = [P(w) * cond for w in wants]
        try:
            with Limit(self.limit):
                for w in wants[1:]:
                    if (F or self.F).equal(P(got), P(w)): st, det = 'proved', ''; break
                else: st, det = decide_eq(F or self.F, P(got), P(wants[0]))
        except Unsupported as e: st, det = 'undecided', 'comparison: %s' % e
        self.add(what, st, det)
        return st == 'proved'
    def throws(self, want, exc=None, what='refused exactly when it must be'):
        """the entry throws exactly under the condition `want`, and only exceptions of class exc"""
        if self.err: return self.add(what, 'undecided', self.err)
        self.eq(what, self.out.cond('throw') + self.out.cond('abort'), want)
        for e in self.out.throws():
            if exc and e.cond.const() != 0 and not exc_isa(e.val[0], exc):
                dead = False
                if has_unknown(e.cond): self.add('exception class', 'undecided', e.val[0]); continue
                st, det = decide_eq(self.F, e.cond, ZERO)
                self.add('exception class %s' % e.val[0], {'proved': 'proved', 'refuted': 'refuted', 'undecided': 'undecided'}[st], 'thrown at %s %s' % (e.where, det))
    def result(self, name=None):
        """merged final value of the return value (None) or of a reference parameter; facts under which it is returned"""
        heap, val, live = self.out.ret()
        if name is None: v = val
        else: v = heap[self.I.arg_lvs[name].root]
        if isinstance(v, LV): v = self.load(v, heap)
        return v, self.F.assume(live)
    def load(self, lv, heap):
        st = self.I.st
        from ..interp import St
        self.I.st = St(dict(heap), self.F, ONE)
        try: return self.I.load(lv)
        finally: self.I.st = st
    def matrix(self, name, dims, f, what=None, cond=None, pos=None):
        """result `name` is a matrix of the given sizes whose element at every position inside is f(x,y,z)"""
        what = what or ('result' if name is None else name)
        if self.err: return self.add(what, 'undecided', self.err)
        try:
            with Limit(self.limit): v, F = self.result(name)
        except (Unsupported, KeyError, AttributeError) as e: return self.add(what, 'undecided', str(e))
        if cond is not None: F = F.assume(cond)
        if not isinstance(v, VMat): return self.add(what, 'undecided', 'not a matrix value: %s' % type(v).__name__)
        if self.inst: dims = [self.s(d) for d in dims]
        for i, (d, w) in enumerate(zip(v.dim, dims)):
            self.eq('%s: size %s' % (what, 'xyz'[i]), d, w, F, cond)
        if f is None and pos is None: return v, F
        if pos is None:
            G = F; s = {}
            for m, w in zip(MB, dims):
                if P(w).const() == 1: s[m] = ZERO
                else: G = G.add_ge(P(m), P(w) - 1 - P(m))
            w = f(X0, Y0, Z0)
            if self.inst and all(P(d).const() is not None for d in dims):
                import itertools
                w0 = self.s(w[0] if isinstance(w, list) else w)
                ps = list(itertools.product(*[range(int(P(d).const())) for d in dims]))
                for q in ps[:40]:
                    sb = dict(zip(MB, map(P, q)))
                    self.eq('%s: element %s' % (what, q), subst(v.body, sb), subst(w0, sb), F, cond)
                return v, F
            w = [subst(P(q), s) for q in (w if isinstance(w, list) else [w])]
            self.eq('%s: every element' % what, subst(v.body, s), w, G, cond)
        else:
            # positions parameterised: [(vars facts, (x,y,z), value)]
            for tag, facts, p, val in pos:
                G = F.add_ge(*[self.s(x) for x in facts]); p = [self.s(x) for x in p]
                self.eq('%s: %s' % (what, tag), subst(v.body, dict(zip(MB, [P(q) for q in p]))), val, G, cond)
        return v, F
    def scalar(self, name, want, what=None, cond=None):
        what = what or ('result' if name is None else name)
        if self.err: return self.add(what, 'undecided', self.err)
        try:
            with Limit(self.limit): v, F = self.result(name)
        except (Unsupported, KeyError, AttributeError) as e: return self.add(what, 'undecided', str(e))
        if cond is not None: F = F.assume(cond)
        if not isinstance(v, Poly): return self.add(what, 'undecided', 'not a number: %s' % str(v)[:300])
        self.eq(what, v, want, F, cond)

def par(c, jobs, workers=8):
    """run independent parts of a check in forked processes and merge what they recorded"""
    import os, pickle, tempfile
    c.parts = True
    if INST[0] is not None:
        for f in jobs: f(c)
        return
    todo = list(enumerate(jobs)); running = {}; res = {}
    while todo or running:
        while todo and len(running) < workers:
            i, f = todo.pop(0)
            fd, path = tempfile.mkstemp(dir=c.tmp)
            os.close(fd)
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    c.obl = []; c.analysed = {}; c.notes = []
                    try: f(c)
                    except Unsupported as e: c.add('part %d' % i, 'analysis', '', 'undecided', str(e))
                    except Broken: raise
                    except Exception: c.add('part %d' % i, 'analysis', '', 'undecided', 'analysis stopped: ' + traceback.format_exc()[-1500:])
                    instances(c, f)
                    with open(path, 'wb') as o: pickle.dump((c.obl, c.analysed, c.notes), o)
                except BaseException:
                    traceback.print_exc(); rc = 1
                finally: os._exit(rc)
            running[pid] = (i, path)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() - T0 > HARD:
                for q, (i, path) in running.items():
                    try: os.kill(q, 9); os.waitpid(q, 0)
                    except OSError: pass
                    c.add('part %d' % i, 'analysis', '', 'undecided', 'stopped after %d s' % HARD)
                running = {}; todo = []
                break
            time.sleep(0.01); continue
        if pid not in running: continue
        i, path = running.pop(pid)
        if st != 0: raise Broken('part %d of the analysis died (status %d)' % (i, st))
        res[i] = pickle.load(open(path, 'rb')); os.unlink(path)
    for i in sorted(res):
        obl, an, notes = res[i]
        c.obl += obl; c.notes += notes
        for k, v in an.items(): c.count(k, v)
