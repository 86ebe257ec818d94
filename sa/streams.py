"""Text streams: output is a symbolic sequence of items (literal text, formatted values, repetitions); input reads such a
sequence back.  A position counts literal characters as their number and a formatted value as one, so that a reader's
position in a repetition evolves linearly with its loop counters."""
import re
from .terms import *
from . import terms as T
from .values import *
WS = ' \t\n\r\v\f'
def ilen(x):
    if x[0] == 'lit': return P(len(x[1]))
    if x[0] in ('val', 'unit'): return ONE
    if x[0] == 'rep':
        r = tlen(x[3])
        for b in x[2]: r = r * b
        return r
    if x[0] == 'cond':
        a, b = tlen(x[2]), tlen(x[3])
        if a == b: return a
        return ite(x[1], a, b)
    raise Unsupported('text item ' + x[0])
def tlen(items):
    r = ZERO
    for x in items: r = r + ilen(x)
    return r
def quot(d, L):
    """q, r with d = q*L + r (polynomial division by the leading monomial of L)"""
    c = L.const()
    if c is not None:
        q = ZERO; r = ZERO
        for m, k in d.t.items():
            if isinstance(k, int) and m:
                q = q + Poly({m: k // c}) if k // c else q; r = r + Poly({m: k % c}) if k % c else r
            elif not m: q = q + (k // c); r = r + (k % c)
            else: return None
        return q, r
    lead = max(L.t, key=lambda m: (sum(e for _, e in m), len(m)))
    lc = L.t[lead]; q = ZERO; r = d
    ld = dict(lead)
    for _ in range(40):
        hit = None
        for m, k in r.t.items():
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in ld.items()) and k % lc == 0: hit = (m, k); break
        if hit is None: return q, r
        md = dict(hit[0])
        for a, e in ld.items(): md[a] -= e
        t = P(hit[1] // lc)
        for a, e in md.items():
            for _ in range(e): t = t * P(a)
        q = q + t; r = r - t * L
    return None
def merge(items):
    out = []
    for x in items:
        if x[0] == 'lit':
            if not x[1]: continue
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + x[1]); continue
        if x[0] == 'rep': x = ('rep', x[1], x[2], tuple(merge(x[3])))
        out.append(x)
    return tuple(out)
def isnum(x): return x[0] == 'val' and isinstance(x[1], Poly)
def glue(items, nxt=None):
    """values printed without anything between them are not what is read back"""
    out = []
    for i, x in enumerate(items):
        y = items[i + 1] if i + 1 < len(items) else nxt
        if x[0] == 'rep':
            b = x[3]
            x = ('rep', x[1], x[2], glue(b, b[0] if b and isnum(b[0]) else y))
        elif isnum(x):
            z = y
            while z is not None and z[0] == 'rep': z = z[3][0] if z[3] else None
            run = z is not None and (isnum(z) and not (z[2] not in ('float', 'double', 'long double') and len(z) > 3 and isinstance(z[3], Poly) and (z[3].const() or 0) >= 21) or z[0] == 'lit' and (z[1][0].isalnum() or z[1][0] in '.+-'))
            if run: x = ('val', fn('run together with what follows', x[1])) + x[2:]
        out.append(x)
    return tuple(out)
class Streams:
    def set_text(self, items):
        self.texts.append(glue(merge(items))); return VOpq('in', (len(self.texts) - 1,))
    def text_of(self, obj, st):
        it = st.f['seq'].items
        if it and it[0][0] not in ('mark', 'shallow'):
            if any(x[0] in ('mark', 'shallow') for x in it): raise Unsupported('stream read and written in the same loop')
            old = self.texts[st.f['in'].d[0]] if st.f['in'].d else ()
            st = VObj(st.cls, {**st.f, 'in': self.set_text(old + it), 'seq': VSeq(())})
            self.store(obj, st)
        return st, (self.texts[st.f['in'].d[0]] if st.f['in'].d else ())
    def decide_ge(self, p):
        return self.simp(ge0(self.simp(p))).const()
    def locate(self, items, p, what='position in the text'):
        """(innermost list, index, character offset); index == len for the end of the whole text"""
        d = self.simp(p)
        if getattr(self, 'shallow', 0) and any(str(q).startswith('$S') for q in d.syms()):
            from .loops import ShallowFail
            raise ShallowFail(what)
        for i, x in enumerate(items):
            if d.const() == 0 and x[0] not in ('rep', 'cond'): return items, i, 0
            if x[0] == 'lit':
                c = d.const()
                if c is not None:
                    if c < len(x[1]): return items, i, int(c)
                elif self.decide_ge(d - len(x[1])) != 1: raise Unsupported(what)
                d = self.simp(d - len(x[1])); continue
            if x[0] in ('val', 'unit'): d = self.simp(d - 1); continue
            if x[0] == 'cond':
                c = self.simp(x[1]).const()
                if c is None: raise Unsupported('text depends on a condition')
                sub = x[2] if c else x[3]; l = self.simp(tlen(sub))
                if self.decide_ge(d - l) == 1: d = self.simp(d - l); continue
                return self.locate(sub, d)
            if x[0] == 'rep':
                L = tlen(x[3]); qs = []; r = d; rest = L
                # split into the iteration numbers, outermost loop first
                bs = list(x[2])
                sub = {}
                ok = True
                for j, (v, b) in enumerate(zip(x[1], bs)):
                    unit = L
                    for b2 in bs[j + 1:]: unit = unit * b2
                    qr = quot(r, unit)
                    if qr is None: ok = False; break
                    q, r = qr
                    if self.decide_ge(r) != 1 or self.decide_ge(unit - 1 - r) != 1:
                        for q2, r2 in ((q - 1, r + unit), (q + 1, r - unit)):
                            if self.decide_ge(r2) == 1 and self.decide_ge(unit - 1 - r2) == 1: q, r = q2, r2; break
                    q = self.simp(q); r = self.simp(r); sub[v] = q; qs.append((q, b))
                if ok and all(self.decide_ge(q) == 1 and self.decide_ge(b - 1 - q) == 1 for q, b in qs) and self.decide_ge(r) == 1 and self.decide_ge(L - 1 - r) == 1:
                    body = tuple(seqmap(y, lambda t, bs, path: subst(t, sub), (), ()) for y in x[3])
                    return self.locate(body, r)
                tot = ilen(x)
                if self.simp(d - tot) == ZERO or self.decide_ge(d - tot) == 1: d = self.simp(d - tot); continue
                raise Unsupported(what + ' in a repetition')
            raise Unsupported('text item ' + x[0])
        if d.const() == 0: return items, len(items), 0
        if self.decide_ge(d - 1) == 1: return items, len(items), 0
        raise Unsupported(what)
    def upd(self, obj, **k):
        st = self.load(obj)
        self.store(obj, VObj(st.cls, {**st.f, **{a: self.simp(b) if isinstance(b, Poly) else b for a, b in k.items()}}))
    def when_ok(self, obj, f):
        """an input operation; once the stream has failed its position no longer matters, so that it advances regardless"""
        st = self.load(obj)
        c = self.simp(st.f['bad'])
        if c.const() == 1: return
        f()
        if c.const() != 0: self.upd(obj, bad=OR(c, self.load(obj).f['bad']), eof=ite(c, st.f['eof'], self.load(obj).f['eof']))
    def put(self, obj, target, v):
        """store what was read unless the stream had failed before"""
        self.branch(self.simp(self.load(obj).f['bad']), lambda: None, lambda: self.store(target, v))
    def skip_ws(self, lst, i, o):
        """white space directly after a position, inside one list: (count, characters from the first line end on)"""
        cnt = nl = 0
        while i < len(lst) and lst[i][0] == 'lit':
            s = lst[i][1]
            while o < len(s) and s[o] in WS:
                cnt += 1
                if nl or s[o] == '\n': nl += 1
                o += 1
            if o < len(s): break
            i += 1; o = 0
        return cnt, nl
    def stream_in(self, tu, fd, obj, st, target):
        pt = fd['pt'][-1]
        ty = self.p.strip(tu, pt)
        if isinstance(target, LV) is False and not self.is_lvite(target):
            v = self.peek(target)
            if isinstance(v, VFun): return obj       # manipulators of input formatting
            raise Unsupported('stream input target')
        def go():
            st, items = self.text_of(obj, self.load(obj))
            if st.f.get('any') is not None: return self.any_in(obj, st, target, ty)
            p = st.f['pos']
            for _ in range(8):
                lst, i, o = self.locate(items, p)
                c, nl = self.skip_ws(lst, i, o)
                if c == 0: break
                p = p + c
            if i >= len(lst):
                self.upd(obj, bad=ONE, eof=ONE, pos=p, nl=ZERO, sp=ZERO)
                if ty['k'] in ('int', 'uint', 'float', 'bool') and False: self.store(target, ZERO)
                return
            x = lst[i]
            bad = ZERO
            if x[0] == 'val':
                v, bad = self.read_val(x, ty); n = 1; after = (lst, i + 1, 0)
            elif x[0] == 'lit':
                s = x[1][o:]
                if ty['k'] in ('int', 'uint', 'float'):
                    m = re.match(r'[+-]?\d+' if ty['k'] != 'float' else r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s)
                    if m and m.end() == len(s) and i + 1 < len(lst) and lst[i + 1][0] == 'val': raise Unsupported('number next to a value')
                    if not m:
                        self.put(obj, target, ZERO); self.upd(obj, bad=ONE, pos=p, nl=ZERO, sp=ZERO); return
                    from fractions import Fraction
                    v = P(norm(Fraction(m.group(0)))); n = m.end(); after = (lst, i, o + n)
                elif ty.get('qn') == 'std::basic_string':
                    m = re.match(r'[^ \t\n\r\v\f]+', s); n = m.end(); v = VStr([m.group(0)]); after = (lst, i, o + n)
                    if n == len(s) and i + 1 < len(lst) and lst[i + 1][0] == 'val': raise Unsupported('word next to a value')
                else: raise Unsupported('stream input of ' + str(ty.get('s', ty['k'])))
            else: raise Unsupported('stream input at ' + x[0])
            self.put(obj, target, v)
            c, nl = self.skip_ws(*after)
            self.upd(obj, pos=p + n + c, nl=P(nl), sp=P(c - nl), bad=OR(self.load(obj).f['bad'], bad))
        self.when_ok(obj, go)
        return obj
    def read_val(self, x, ty):
        """value read back from a formatted value, and the condition under which it cannot be read"""
        v = x[1]; bad = x[6] if len(x) > 6 else ZERO
        if isinstance(v, VStr):
            c = self.str_code(v) if ty.get('qn') == 'std::basic_string' else None
            if c is None: raise Unsupported('word input of a string value')
            return VStr([('sym', fn('first word of', c))]), bad
        if not isinstance(v, Poly): raise Unsupported('stream input of %s' % type(v).__name__)
        src = x[2]
        fl = src in ('float', 'double', 'long double')
        if ty['k'] in ('int', 'uint'):
            r = fn('leading digits', v) if fl else v
        elif ty['k'] == 'float':
            r = v
            if fl:
                pr = x[4].const() if len(x) > 4 else None
                if pr is not None and pr >= 6: r = fn('printed', v)
                elif pr is not None: r = fn('printed to %d digits' % pr, v)
                else: r = fn('printed', v, x[4])
        elif ty['k'] == 'bool' and not fl:
            z, o = self.simp(eq(v, 0)), self.simp(eq(v, 1))
            r = 1 - z; bad = OR(bad, (1 - z) * (1 - o))
        else: raise Unsupported('stream input of ' + str(ty.get('s', ty['k'])))
        return (r if bad.const() == 0 else ite(bad, ZERO, r)), bad
    def line_at(self, items, p, delim='\n'):
        """parts of the line starting at p, its length including the delimiter, and whether the delimiter was found"""
        parts = []; n = 0
        lst, i, o = self.locate(items, p)
        if i >= len(lst): return None, 0, False
        while i < len(lst):
            x = lst[i]
            if x[0] == 'lit':
                s = x[1][o:]; j = s.find(delim)
                if j >= 0: return parts + [s[:j]], n + j + 1, True
                parts.append(s); n += len(s)
            elif x[0] == 'val':
                if isinstance(x[1], VStr): parts += list(x[1].parts)
                elif isinstance(x[1], Poly): parts.append(('num', x[1]))
                else: raise Unsupported('line with %s' % type(x[1]).__name__)
                n += 1
            elif x[0] == 'unit':
                return [x], n + 1, True
            else: raise Unsupported('line with a repetition')
            i += 1; o = 0
        if lst is not items and merge(lst) != merge(items): raise Unsupported('line crosses a repetition')
        return parts, n, False
    def exact(self, st):
        """position before skipped blanks and line ends"""
        p = self.simp(st.f['pos'] - st.f['nl'] - st.f['sp'])
        return p
    def fn_getline(self, tu, fd, args, e):
        obj, dst = args[0], args[1]
        delim = '\n'
        if len(args) > 2: delim = chr(int(self.poly(args[2]).const()))
        def go():
            st, items = self.text_of(obj, self.load(obj))
            parts, n, found = self.line_at(items, self.exact(st), delim)
            if parts is None:
                self.put(obj, dst, VStr([''])); self.upd(obj, bad=ONE, eof=ONE); return
            bad = ZERO
            lst, i, o = self.locate(items, self.exact(st))
            for j, x in enumerate(lst[i:]):
                if x[0] == 'lit' and delim in (x[1] if j else x[1][o:]): break
                if x[0] == 'val' and len(x) > 6:
                    if not j: bad = x[6]
            if parts and isinstance(parts[0], tuple) and parts[0][0] == 'unit': v = parts[0][2](self, obj)
            else: v = VStr(parts)
            self.put(obj, dst, v)
            self.upd(obj, pos=self.exact(st) + n, nl=ZERO, sp=ZERO, eof=OR(P(not found), bad), bad=OR(self.load(obj).f['bad'], bad))
        self.when_ok(obj, go)
        return obj
    def clear_line(self, obj, delim='\n'):
        def scan():
            st, items = self.text_of(obj, self.load(obj))
            parts, n, found = self.line_at(items, self.exact(st) if delim != '\n' else st.f['pos'], delim)
            self.upd(obj, pos=st.f['pos'] + n, nl=ZERO, sp=ZERO, eof=P(not found))
        def back():
            st = self.load(obj)
            self.upd(obj, pos=st.f['pos'] - st.f['nl'] + 1, nl=ZERO, sp=ZERO)
        st = self.load(obj)
        self.branch(ge(st.f['nl'], 1), back, scan) if delim == '\n' else scan()
    def stream_method(self, tu, fd, n, obj, st, args, e):
        if n == 'gcount':
            if st.f.get('gc', ZERO) is None: raise Unsupported('stream::gcount')
            return self.simp(st.f.get('gc', ZERO))
        if n == 'read' and 'gc' in st.f: self.upd(obj, gc=ZERO); st = self.load(obj)
        elif n in ('get', 'getline', 'ignore', 'peek') and 'gc' in st.f: self.upd(obj, gc=sym('?gcount'))
        if n in ('operator bool',): return 1 - self.simp(st.f['bad'])
        if n in ('operator!', 'fail'): return self.simp(st.f['bad'])
        if n == 'good': return self.simp((1 - st.f['bad']) * (1 - st.f['eof']))
        if n == 'bad': return self.simp(st.f['bad'] * st.f['open']) if 'fails' in st.f else ZERO      # only failing writes set badbit; bad input and the end of the file set failbit
        if n == 'eof': return self.simp(st.f['eof'])
        if n == 'clear' and (not args or self.poly(args[0]).const() == 0):
            if self.simp(st.f['bad']).const() is None and 'len' not in st.f: raise Unsupported('clear after a possible failure')
            self.upd(obj, bad=ZERO, eof=ZERO); return VOID
        if n == 'is_open': return st.f['open']
        if n == 'close':
            self.stream_flush(obj)
            self.upd(obj, open=ZERO, bad=OR(self.load(obj).f['bad'], 1 - st.f['open'])); return VOID
        if n == 'open' and 'open_file' in self.vhooks: self.vhooks['open_file'](self, obj, args); return VOID
        if n == 'ignore':
            if len(args) > 1:
                d = chr(int(self.poly(args[1]).const()))
                self.when_ok(obj, lambda: self.clear_line(obj, d)); return obj
            k = self.poly(args[0]).const() if args else 1
            if k is None and 'len' in st.f: k = self.poly(args[0])
            if k is None: raise Unsupported('stream::ignore')
            def go():
                st = self.load(obj)
                if 'len' in st.f: self.upd(obj, pos=ite(gt(st.f['pos'] + k, st.f['len']), st.f['len'], st.f['pos'] + k), eof=OR(st.f['eof'], gt(st.f['pos'] + k, st.f['len']))); return
                self.upd(obj, pos=self.exact(st) + k, nl=ZERO, sp=ZERO)
            self.when_ok(obj, go); return obj
        if n == 'tellg' or n == 'tellp': return VOpq('spos', (st.f['pos'], st.f['nl'], st.f['sp']))
        if n == 'seekg':
            v = self.peek(args[0])
            def go():
                if isinstance(v, VOpq) and v.kind == 'spos': self.upd(obj, pos=v.d[0], nl=v.d[1], sp=v.d[2], eof=ZERO)
                elif isinstance(v, Poly) and len(args) == 1: self.upd(obj, pos=v, nl=ZERO, sp=ZERO, eof=ZERO)
                elif isinstance(v, Poly) and len(args) == 2 and 'len' in st.f:
                    w = self.poly(args[1]).const()
                    if w not in (0, 1, 2): raise Unsupported('stream::seekg direction')
                    self.upd(obj, pos=self.simp(v + (ZERO, st.f['pos'], st.f['len'])[int(w)]), nl=ZERO, sp=ZERO, eof=ZERO)
                else: raise Unsupported('stream::seekg %s' % (v,))
            self.when_ok(obj, go); return obj
        if n == 'setstate':
            b = self.poly(args[0]).const()
            if b is None: raise Unsupported('stream::setstate')
            b = int(b)         # libstdc++: badbit 1, eofbit 2, failbit 4
            if b & 5: self.upd(obj, bad=ONE)
            if b & 2: self.upd(obj, eof=ONE)
            return VOID
        if n in ('get', 'peek') and 'len' in st.f and len(args) <= 1:
            out = self.newroot(P(-1))
            def go():
                st = self.load(obj); p = st.f['pos']
                short = self.simp(gt(p + 1, st.f['len']))
                c = self.simp(self.vhooks['file_byte'](self, st.f['name'], self.simp(p)))
                def ok():
                    if args: self.store(args[0], self.simp(wrap('i8', c)))
                    else: self.store(out, c)
                self.branch(OR(short, self.simp(st.f['bad'])), lambda: None, ok)
                self.upd(obj, pos=p + (n == 'get'), bad=OR(st.f['bad'], short) if n == 'get' else st.f['bad'], eof=OR(st.f['eof'], short))
            self.when_ok(obj, go); return obj if args else self.load(out)
        if n == 'read' and 'len' in st.f:
            t = args[0] if isinstance(args[0], (VVIt, VPtr)) else self.peek(args[0])
            k = self.poly(args[1]).const()
            if k is None or k > 16 or not (isinstance(t, VVIt) and t.lv.path and t.lv.path[-1][0] == 'raw'): raise Unsupported('stream::read of bytes')
            def go():
                st = self.load(obj); p = st.f['pos']
                short = self.simp(gt(p + k, st.f['len']))
                def fill():
                    for i in range(int(k)): self.store(t.lv.sub(('e', t.pos + i)), self.vhooks['file_byte'](self, st.f['name'], self.simp(p + i)))
                self.branch(OR(short, self.simp(st.f['bad'])), lambda: None, fill)
                self.upd(obj, pos=p + k, bad=OR(st.f['bad'], short), eof=OR(st.f['eof'], short), gc=ite(short, st.f['len'] - p, P(k)))
            self.when_ok(obj, go); return obj
        if n == 'read':
            t = self.peek(args[0]) if not (isinstance(args[0], VOpq)) else args[0]
            k = self.poly(args[1]).const()
            if not (isinstance(t, VOpq) and t.kind == 'sdata') or k is None: raise Unsupported('stream::read')
            def go():
                st, items = self.text_of(obj, self.load(obj))
                p = self.exact(st)
                lst, i, o = self.locate(items, p)
                got = ''; other = False
                while len(got) < k and i < len(lst):
                    x = lst[i]
                    if x[0] == 'lit': got += x[1][o:o + k - len(got)]
                    else: other = True; break
                    i += 1; o = 0
                old = self.load(t.d[0])
                if other: self.put(obj, t.d[0], VStr([got, ('sym', app('text', [st.f['pos']], True))])); self.upd(obj, pos=p + len(got), nl=ZERO, sp=ZERO, gc=P(k)); return
                if len(got) < k:
                    if lst is not items and merge(lst) != items: raise Unsupported('read crosses a repetition')
                    w = ''.join(old.parts) if isinstance(old, VStr) and all(isinstance(q, str) for q in old.parts) else None
                    if w is None: raise Unsupported('stream::read')
                    self.put(obj, t.d[0], VStr([got + w[len(got):]])); self.upd(obj, pos=p + len(got), nl=ZERO, sp=ZERO, bad=ONE, eof=ONE, gc=P(len(got))); return
                self.put(obj, t.d[0], VStr([got])); self.upd(obj, pos=p + k, nl=ZERO, sp=ZERO, gc=P(k))
            self.when_ok(obj, go); return obj
        if n == 'str' and args:
            v = self.peek(args[0])
            items = v.f['seq'].items if isinstance(v, VObj) else (('lit', ''.join(v.parts)),) if isinstance(v, VStr) and all(isinstance(q, str) for q in v.parts) else None
            if items is None: raise Unsupported('stream::str')
            self.upd(obj, **{'in': self.set_text(items), 'pos': ZERO, 'nl': ZERO, 'sp': ZERO, 'seq': VSeq(())}); return VOID
        raise Unsupported('stream::' + n)
