"""seedrun.py [prefix...] : runs the matching property's check against every planted change, in scratch copies"""
import sys, os, subprocess, shutil, json, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
def one(d):
    sid = os.path.basename(d); pid = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists(V + '/sa/props/%s.py' % pid.lower()): return sid, 'NO CHECK'
    w = tempfile.mkdtemp(prefix='sr_')
    try:
        subprocess.run('git clone -q /repo %s/repo && git -C %s/repo apply %s/patch.diff' % (w, w, d), shell=True, check=True)
        r = subprocess.run(['python3', 'sa/check.py', pid], cwd=V, env=dict(os.environ, SA_REPO=w + '/repo', SA_EVID=w), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        u = [l for l in r.stdout.splitlines() if l.startswith('UNDECIDED')]
        return sid, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d %s %s' % (r.returncode, '; '.join(x[:200] for x in u[:3]), r.stderr[-300:])
    finally: shutil.rmtree(w, ignore_errors=True)
ds = sorted(glob.glob(V + '/seeded/*'))
if len(sys.argv) > 1: ds = [d for d in ds if any(os.path.basename(d).startswith(p) for p in sys.argv[1:])]
with ThreadPoolExecutor(3) as p:
    for sid, r in p.map(one, ds): print('%-34s %s' % (sid, r), flush=True)
