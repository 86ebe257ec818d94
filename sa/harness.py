"""Glue between the properties and the analysis: programs, symbolic arguments, outcomes, comparison of normal forms."""
import os, glob, time
from .terms import *
from . import terms as T
from .facts import Facts
from .values import *
from .interp import Prog, Interp, DeadPath, Exit, exc_isa
from .evalterm import separate
from .ctx import REPO, VERIF, Broken

class Out:
    """summary of one analysed entry: exits (kind, cond, heap, val), final heap"""
    def __init__(self, I, exits): self.I = I; self.exits = exits
    def rets(self): return [e for e in self.exits if e.kind == 'return']
    def throws(self): return [e for e in self.exits if e.kind == 'throw']
    def ret(self):
        r = self.rets()
        if not r: raise Unsupported('does not return')
        heap, facts, val, live = self.I.merge_exits(r, self.I.base_facts)
        return heap, val, live
    def cond(self, kind, pred=None):
        c = ZERO
        for e in self.exits:
            if e.kind == kind and (pred is None or pred(e)): c = c + e.cond
        return c

class H:
    def __init__(self, c, files):
        self.c = c
        fs = []
        for f in files: fs += [f if os.path.isabs(f) else (os.path.join(VERIF, 'drivers', f) if not f.startswith('src/') else os.path.join(REPO, f))]
        res = c.extract(fs)
        for f, d, err in res:
            if d is None: raise Broken('%s does not resolve: %s' % (f, err[:1500]))
        self.p = Prog([d for _, d, _ in res])
    def interp(self, facts=None, contract=True, **kw):
        I = Interp(self.p, contract, facts or Facts())
        for k, v in kw.items(): setattr(I, k, v)
        I.base_facts = I.st.facts
        return I
    def fn(self, name):
        fs = self.p.find(name)
        if not fs: raise Broken('no function ' + name)
        return fs[0]
    def params(self, name):
        tu, fid = self.fn(name)
        b = self.p.body(tu, fid)
        return [(q['n'], self.p.type(b[0], q['t'])) for q in b[2]['p']], b[0]
    def args(self, I, name, given=None):
        """symbolic arguments; given overrides by parameter name with Values or LVs"""
        ps, tu = self.params(name)
        out = []
        for n, ty in ps:
            v = (given or {}).get(n)
            if v is None: v = I.symv(ty, tu, n)
            if ty['k'] in ('ref', 'rref') and not isinstance(v, LV): v = I.newroot(v, n)
            out.append(v)
        return out
    def run(self, I, name, given=None):
        tu, fid = self.fn(name)
        args = self.args(I, name, given)
        I.arg_lvs = dict(zip([n for n, _ in self.params(name)[0]], args))
        I.load0 = {n: I.load(a) if isinstance(a, LV) else a for n, a in I.arg_lvs.items()}
        ok, r, exits, live = I.scope(lambda: I.call_fn(tu, fid, None, args))
        ex = list(exits)
        if ok: ex.append(Exit('return', I.st.live, I.st.heap, I.st.facts, r))
        self.c.count('functions analysed', len(I.visited)); self.c.count('loops summarised', I.loops_done)
        return Out(I, ex)

def has_unknown(*ps):
    for p in ps:
        if any(s.startswith('?') or s.startswith('$') for s in p.syms()): return True
    return False

class Cap:
    """tighter deadline for one step"""
    def __init__(self, secs): self.secs = secs
    def __enter__(self):
        self.old = T.DEADLINE[0]; t = T.now() + self.secs
        T.DEADLINE[0] = t if self.old is None else min(t, self.old)
    def __exit__(self, *a): T.DEADLINE[0] = self.old

def decide_eq(F, got, want, tries=300):
    """('proved'|'refuted'|'undecided', detail); a difficult comparison is first searched for a separating interpretation"""
    got, want = P(got), P(want)
    unk = has_unknown(got, want)
    late = None
    try:
        with Cap(12): 
            if F.equal(got, want): return 'proved', ''
    except Unsupported as e: late = str(e)
    s = None
    if not unk:
        try:
            with Cap(40): s = separate(F, got - want, tries=tries)
        except Unsupported: s = None
    if s is not None:
        env, v = s
        def sh(p):
            try:
                with Cap(3): return show(F.simplify(p))[:700]
            except Unsupported: return show(p)[:700]
        return 'refuted', 'computed %s   expected %s   differ by %s for %s' % (sh(got), sh(want), v, {show_atom(k): str(x) for k, x in env.items()})
    if late:
        try:
            if F.equal(got, want): return 'proved', ''
        except Unsupported as e: return 'undecided', 'comparison: %s' % e
    try:
        with Cap(5): d = F.simplify(got - want)
    except Unsupported: d = got - want
    if unk: return 'undecided', 'depends on a loop that was not summarised: ' + show(d)[:600]
    return 'undecided', 'no separating interpretation: ' + show(d)[:800]
