import os, re, subprocess
from ..ctx import VERIF, CXX, INC, REPO
from ..witness import static_asserts

def run(c):
    rule = 'static_assert over the resolved type of every access path (detection idiom; assignable = lvalue reference to non-const)'
    ok, failed, other, raw = static_asserts(c, 'C06.cpp', rule)
    path = os.path.join(VERIF, 'witness', 'C06.cpp')
    # expand the macros to enumerate the witnesses that were checked
    r = subprocess.run([CXX, '-E', '-P'] + INC + [path], capture_output=True, text=True)
    labels = re.findall(r'static_assert\((?:[^;]|;(?!\s))*?,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', r.stdout)
    labs = []
    for l in labels:
        s = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', l))
        if s.startswith('W:'): labs.append(s[2:])
    # keep all witness labels (text-level count is only for the evidence)
    seen = set()
    for s in re.findall(r'"W:[^;]*?\)', r.stdout):
        t = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', s))[2:]
        if t and t not in seen:
            seen.add(t)
            c.add(t, rule, 'type of the expression, ' + REPO + '/include/cnn_from_scratch/Matrix', 'refuted' if t in failed else 'proved', 'the opposite of this statement holds' if t not in failed else 'static assertion fails: ' + t)
    for t in failed:
        if t not in seen: c.add(t, rule, failed[t], 'refuted', t)
    for f, l, msg in other:
        c.add('witness file does not type-check at %s:%d' % (os.path.basename(f), l), rule, '%s:%d' % (f, l), 'undecided', msg)
