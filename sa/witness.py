"""Type-level witnesses: static assertions over the library's resolved types, decided by the compiler's type checker."""
import os, re
from .ctx import VERIF, REPO

def static_asserts(c, fname, rule):
    path = os.path.join(VERIF, 'witness', fname)
    ok, errs, raw = c.syntax(path)
    src = open(path).read()
    failed = {}
    other = []
    for f, l, kind, msg in errs:
        if kind == 'note': continue
        m = re.search(r'static assertion failed.*?: (W:.*)$', msg)
        if m: failed[m.group(1)[2:]] = '%s:%d' % (f, l)
        else: other.append((f, l, msg))
    n = src.count('static_assert') 
    return ok, failed, other, raw
