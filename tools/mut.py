#!/usr/bin/env python3
"""mut.py FILE.py [filter]: apply each mutation (id, props, edits, kind) to a scratch copy and run the checks on it.
MUTS = [(id, 'C13,C14', [(file, old, new)], 'bug'|'same')]"""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(sys.argv[1]); flt = sys.argv[2:]
def one(m):
    mid, props, edits, kind = m
    if flt and not any(f in mid or f in props.split(',') for f in flt): return None
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        for sub in ('include', 'src'): shutil.copytree('/repo/' + sub, d + '/' + sub)
        for f, o, nw in edits:
            t = open(d + '/' + f).read()
            if t.count(o) < 1: return mid, kind, 'NOMATCH ' + f + ': ' + o[:60], ''
            open(d + '/' + f, 'w').write(t.replace(o, nw, 1) if not nw.startswith('@all@') else t.replace(o, nw[5:]))
        res = []; det = ''
        for p in props.split(','):
            env = dict(os.environ, SA_REPO=d, SA_EVID=d + '/ev')
            r = subprocess.run([sys.executable, VERIF + '/sa/check.py', p], capture_output=True, text=True, env=env, timeout=1500)
            und = sum(l.startswith('UNDECIDED') for l in r.stdout.splitlines())
            res.append('%s=%s%s' % (p, {0: 'quiet', 1: 'ALARM'}.get(r.returncode, 'exit%d' % r.returncode), '(%d und)' % und if und else ''))
            if r.returncode not in (0, 1): det += (r.stdout + r.stderr)[-800:]
            elif r.returncode == 0 and und: det += '\n'.join(l[:400] for l in r.stdout.splitlines() if l.startswith('UNDECIDED'))[:1200]
            elif r.returncode == 1 and kind == 'same': det += r.stdout[-1500:]
        good = all('ALARM' in x for x in res[:1]) if kind == 'bug' else all('=quiet' in x for x in res)
        return mid, kind, ('ok   ' if good else 'BAD  ') + ' '.join(res), det if not good or 'exit' in ''.join(res) or os.environ.get('V') else ''
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
    for r in ex.map(one, ns['MUTS']):
        if r: print('%-40s %-5s %s' % r[:3], ('\n      ' + r[3].replace('\n', '\n      ')) if r[3] else '', flush=True)
