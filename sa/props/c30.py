import os, glob, subprocess, re
from concurrent.futures import ThreadPoolExecutor
from ..ctx import VERIF, REPO, INC

RULE_I = 'instantiation witness: a translation unit using every public operation type-checks'
RULE_L = 'every non-template function defined in a header is inline, static or in an unnamed namespace (one-definition rule)'
RULE_D = 'every declared, non-deleted, non-pure public member or free function of the library has a definition'

def gpp(path):
    r = subprocess.run(['g++', '-fsyntax-only', '-fmax-errors=20'] + INC + [path], capture_output=True, text=True)
    return r.returncode == 0, r.stderr

def run(c):
    files = sorted(glob.glob(os.path.join(VERIF, 'witness', 'C30_*.cpp')))
    with ThreadPoolExecutor(8) as p:
        res = list(p.map(c.syntax, files)); res2 = list(p.map(gpp, files))
    for f, (ok, errs, raw), (ok2, err2) in zip(files, res, res2):
        n = os.path.basename(f)[4:-4]
        for comp, good, txt in (('clang++', ok, raw), ('g++', ok2, err2)):
            inrepo = [l for l in txt.splitlines() if REPO in l]
            first = [l for l in txt.splitlines() if 'error' in l][:3]
            c.add('%s: every operation type-checks with %s' % (n, comp), RULE_I, (inrepo[0] if inrepo else f), 'proved' if good else 'refuted',
                  '' if good else ' | '.join(first + inrepo[:6]))
    # each public header is usable on its own
    hs = sorted(glob.glob(REPO + '/include/cnn_from_scratch/**/*.h', recursive=True))
    def alone(h):
        t = os.path.join(c.tmp, 'alone_' + re.sub(r'\W', '_', h) + '.cpp')
        open(t, 'w').write('#include "cnn_from_scratch/ModelDescription.h"\n#include "%s"\n#include "%s"\n' % (h, h))
        ok, errs, raw = c.syntax(t)
        open(t, 'w').write('#include "%s"\n' % h)
        bare = ['-std=c++17', '-I' + REPO + '/include', '-I' + REPO + '/src', '-w', '-fsyntax-only', t]
        rs = [subprocess.run([x] + bare, capture_output=True, text=True) for x in ('g++', 'clang++')]
        if all(q.returncode for q in rs): return False, errs, 'not usable as the first header: ' + ' | '.join([l for l in rs[0].stderr.splitlines() if 'error' in l][:3])
        return ok, errs, raw
    with ThreadPoolExecutor(8) as p: r3 = list(p.map(alone, hs))
    for h, (ok, errs, raw) in zip(hs, r3):
        c.add('%s can be included first, and repeatedly next to the model header' % os.path.relpath(h, REPO), RULE_I, h, 'proved' if ok else 'refuted', raw[:500])
    # definitions
    units = [f for f in glob.glob(REPO + '/src/**/*.cpp', recursive=True) if os.path.basename(f) not in ('main.cpp', 'rvalue_detection.cpp', 'timerConfig.cpp')]
    wit = [f for f in files if 'model_string' in f]
    prog = c.extract(units + [REPO + '/src/main.cpp'] + wit)
    defined = set(); declared = {}
    for f, d, err in prog:
        if d is None:
            c.add('%s resolves' % os.path.basename(f), RULE_I, f, 'refuted', err[:600]); continue
        for i, fd in enumerate(d['fdecls']):
            if not fd or not fd.get('in') or fd.get('dep'): continue
            file = d['files'][fd['file']]
            key = fd.get('m')
            has = str(i) in d['funcs']
            if has:
                defined.add(key); c.count('function definitions examined')
                dfile = d['files'][d['funcs'][str(i)]['file']]
                if dfile.endswith(('.h', '.tpp', '.hpp')) and not fd.get('inline') and fd.get('linkage'):
                    c.add('%s defined in a header is not inline' % fd['qn'], RULE_L, '%s:%d' % (dfile, d['funcs'][str(i)]['line']), 'refuted', 'two translation units including the header do not link')
            if fd.get('def'): defined.add(key)
            if not (fd.get('deleted') or fd.get('pure') or fd.get('implicit') or fd.get('defaulted')) and fd.get('acc', 0) in (0, 3) and 'my_cnn' in fd['qn']:
                declared.setdefault(key, (fd['qn'], file, fd['line'], fd.get('cls', '')))
    c.add('no non-inline function definition in a header', RULE_L, REPO + '/include', 'proved', '%d definitions' % c.analysed.get('function definitions examined', 0))
    public = 0
    for key, (qn, file, line, cls) in sorted(declared.items(), key=lambda x: x[1][0]):
        if not key: continue
        if key in defined: public += 1
        elif '/test' not in file:
            c.add('%s has a definition' % ('::'.join([re.sub(r'<.*', '', cls.split('::')[-1])] + [qn.split('::')[-1]])), RULE_D, '%s:%d' % (file, line), 'refuted', 'declared but never defined: using it does not link')
    c.count('declared operations with a definition', public)
    c.add('declared operations have definitions', RULE_D, REPO, 'proved', '%d' % public)
    c.assumptions.append('supported element types: double, float, int, unsigned char; label types: std::string, int, double')
