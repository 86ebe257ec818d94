"""Shared plumbing of the checks: obligations, verdicts, evidence, compiler access."""
import json, os, re, subprocess, sys, time, tempfile, hashlib, shutil, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CXX = '/usr/bin/clang++'
INC = ['-std=c++17', '-include', 'cstdint', '-I' + REPO + '/include', '-I' + REPO + '/src', '-DDATA_DIR="x"', '-w']

class Broken(Exception):
    """the analysis itself could not run"""

def build_extractor():
    out = os.path.join(VERIF, 'build', 'extract')
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.md5(open(src, 'rb').read()).hexdigest()
    stamp = out + '.md5'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h: return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = [CXX, '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Broken('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out); open(stamp, 'w').write(h)
    return out

class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obl = []      # dicts: name, rule, where, status, detail
        self.notes = []; self.analysed = {}
        self.tmp = tempfile.mkdtemp(prefix='sa_%s_' % pid)
        self.level = 'other'; self.assumptions = []
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)

    # -------------------------------------------------------------- obligations
    def add(self, name, rule, where, status, detail=''):
        assert status in ('proved', 'refuted', 'undecided')
        self.obl.append(dict(name=name, rule=rule, where=where, status=status, detail=str(detail)[:4000]))
    def count(self, key, n=1): self.analysed[key] = self.analysed.get(key, 0) + n

    # -------------------------------------------------------------- compiling
    def syntax(self, path, extra=()):
        """(ok, [(file, line, message)])"""
        cmd = [CXX, '-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics'] + INC + list(extra) + [path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.count('translation units type-checked')
        errs = []
        for l in r.stderr.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: (fatal error|error|note): (.*)', l)
            if m: errs.append((m.group(1), int(m.group(2)), m.group(3), m.group(4)))
        return r.returncode == 0, errs, r.stderr

    def extract(self, files):
        """resolved program of the given translation units (absolute paths)"""
        ex = build_extractor()
        def one(f):
            out = os.path.join(self.tmp, '%d_%s.json' % (os.getpid(), f.strip('/').replace('/', '_')))
            cmd = [ex, out, REPO + ':' + VERIF + '/drivers', f, '--', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + INC
            r = subprocess.run(cmd, capture_output=True, text=True)
            if not os.path.exists(out): return f, None, r.stderr
            d = json.load(open(out)); os.unlink(out)
            # what does not compile is left out; an entry that needs it is undecided
            if r.returncode: self.notes.append('%s: %s' % (os.path.basename(f), [l for l in r.stderr.splitlines() if 'error:' in l][:10]))
            return f, d, ''
        with ThreadPoolExecutor(8) as p: res = list(p.map(one, files))
        self.count('translation units resolved', len(files))
        return res

    # -------------------------------------------------------------- verdict
    def finish(self):
        ev = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
        refuted = [o for o in self.obl if o['status'] == 'refuted']
        und = [o for o in self.obl if o['status'] == 'undecided']
        known = load_known(self.pid)
        new = []; listed = []
        for o in refuted:
            (listed if o['name'] in known else new).append(o)
        if not self.obl: raise Broken('no obligation was generated')
        expl = {'proved': sum(o['status'] == 'proved' for o in self.obl), 'refuted': len(refuted), 'undecided': len(und), 'total': len(self.obl)}
        doc = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
                   coverage=dict(explanation='Static analysis of %s at this tree. Each obligation is one rule instance decided on the resolved program.' % REPO,
                                 obligations=len(self.obl), discharged=expl['proved'], undecided=[o['name'] for o in und][:200],
                                 verdicts=expl, analysed=self.analysed, rules=sorted({o['rule'] for o in self.obl}),
                                 samples=[{k: o[k] for k in ('name', 'rule', 'where', 'status', 'detail')} for o in self.obl[:400]], notes=self.notes),
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        json.dump(doc, open(os.path.join(ev, self.pid + '.json'), 'w'), indent=1)
        for o in listed: print('KNOWN-FINDING: property=%s %s' % (self.pid, o['name']))
        for o in und: print('UNDECIDED %s: %s' % (o['name'], o['detail'][:300]))
        print('%s: %d obligations, %d proved, %d undecided, %d refuted, %.1fs' % (self.pid, len(self.obl), expl['proved'], len(und), len(refuted), time.time() - self.t0))
        if new:
            rp = os.path.join(ev, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for o in new: f.write('%s\n  rule: %s\n  where: %s\n  %s\n\n' % (o['name'], o['rule'], o['where'], o['detail']))
            for o in new[:20]: print('  violated: %s\n    rule: %s\n    where: %s\n    %s' % (o['name'], o['rule'], o['where'], o['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        rp = os.path.join(ev, self.pid + '.violation.txt')
        if os.path.exists(rp): os.unlink(rp)
        return 0

def load_known(pid):
    """obligation names listed as unrepaired genuine defects"""
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation="([^"]*)"', l)
            if m and m.group(1) == pid: out.add(m.group(2))
    return out
