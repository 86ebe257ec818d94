"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, asan=False, compile_fail=False)].
Confirms in a scratch copy that the change builds, passes the tests, and that the demo passes without and fails with it, then writes seeded/<id>/."""
import sys, os, subprocess, shutil, json, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken.  Runs in the source tree.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -g -w %s -include cstdint -I./include -I./src -DDATA_DIR='"x"' "$D/demo.cpp" src/Layers/*.cpp src/MNISTReader.cpp -o "$W/demo" -lpthread || exit 3
cd "$W" && timeout 120 ./demo
'''
BASE = json.load(open('/opt/vp/BASELINE.json'))
EXP = set(BASE['passed'] if 'passed' in BASE else BASE.get('stable', BASE))
def one(s):
    sid = s['id']; w = tempfile.mkdtemp(prefix='seed_')
    try:
        t = w + '/repo'
        sh('git -C /repo worktree prune; git clone -q /repo %s' % t)
        for f, old, new in s['edits']:
            p = t + '/' + f; x = open(p).read()
            n = x.count(old)
            if n != 1 and not s.get('multi'): return sid, 'edit matches %d times in %s: %r' % (n, f, old[:60])
            open(p, 'w').write(x.replace(old, new))
        diff = sh('git diff', t).stdout
        # only lines of the original repository may be changed
        base = sh('git rev-list --max-parents=0 HEAD', t).stdout.split()[-1]
        for f in {e[0] for e in s['edits']}:
            bl = sh('git blame -s --abbrev=39 HEAD -- %s' % f, t).stdout.splitlines()
            for l in sh('git diff -U0 -- %s' % f, t).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(','); st, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + cnt):
                        if not bl[k - 1].lstrip('^').startswith(base[:30]): return sid, 'changes a line that is not original: ' + bl[k - 1]
        d = w + '/seed'; os.makedirs(d)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(s.get('demosh') or DEMO % ('-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr' if s.get('asan') else s.get('flags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        r1 = sh('bash %s/demo.sh' % d, t)
        sh('git stash', t)
        r0 = sh('bash %s/demo.sh' % d, t)
        sh('git stash pop', t)
        if r0.returncode: return sid, 'demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:]
        if r1.returncode == 0: return sid, 'demo passes with the change: ' + (r1.stdout + r1.stderr)[-600:]
        if r1.returncode == 3 and not s.get('compile_fail'): return sid, 'demo does not compile with the change: ' + r1.stderr[-600:]
        b = sh('export CC=gcc CXX=g++ LC_ALL=C; cmake -S . -B _b -G Ninja -Wno-dev -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON "-DCMAKE_CXX_FLAGS=-g -Wno-error -include cstdint" && ninja -C _b && ctest --test-dir _b -j8 --timeout 60 --output-junit %s/j.xml' % w, t)
        if not os.path.exists(w + '/j.xml'): return sid, 'build fails: ' + b.stdout[-800:]
        o = sh('python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (w, w))
        res = json.load(open(w + '/o.json'))
        miss = EXP - set(res['passed'])
        if miss: return sid, 'tests fail: %s' % sorted(miss)[:5]
        out = V + '/' + sid
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in ('demo.cpp', 'demo.sh'): shutil.copy2(d + '/' + f, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return sid, 'ok'
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    if len(sys.argv) > 2: seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as p:
        for sid, r in p.map(one, seeds): print(sid, r)
