"""dev helper: which /repo sources define the symbols that HARNESS leaves undefined (transitive).  usage: deps.py [-1] harness.cpp"""
import sys, os, subprocess, glob
sys.path.insert(0, '/verif'); sys.argv_, sys.argv = sys.argv, [sys.argv[0]]
import check as c
from concurrent.futures import ThreadPoolExecutor
import tempfile
srcs = sorted(glob.glob('/repo/src/*/*.cpp'))
tmp = tempfile.mkdtemp(); args = sys.argv_[1:]; one = '-1' in args; args = [a for a in args if a != '-1']
def defs(src):
    fl = c.BASEFLAGS + ['-I/repo/include', '-I/verif/harness/lib']
    if not src.startswith('/repo'):
        u = c.Unit(src); fl = c.BASEFLAGS + (c.UBFLAGS if u.ub else []) + u.flags + ['-I/repo/include', '-I/verif/harness/lib']
    try: bc = c.compile_bc(src, fl, tmp)
    except c.BuildError as e: print('FAILED', src, str(e)[-300:], file=sys.stderr); return src, set(), set(), set()
    o = subprocess.run(['llvm-nm-18', bc], capture_output=True, text=True).stdout
    D, W, U = set(), set(), set()
    for l in o.splitlines():
        p = l.split()
        if len(p) < 2: continue
        t, n = p[-2], p[-1]
        if t == 'U': U.add(n)
        elif t in 'TDBR': D.add(n)
        elif t in 'WV': W.add(n)
    return src, D, W, U
with ThreadPoolExecutor(8) as ex: R = list(ex.map(defs, srcs))
owner = {}
for s, D, W, U in R:
    for n in D: owner.setdefault(n, s)
for s, D, W, U in R:
    for n in W: owner.setdefault(n, s)
info = {s: (D | W, U) for s, D, W, U in R}
for h in args:
    _, D, W, U = defs(h); have = D | W; need = set(U); files = []
    todo = set(n for n in need if n in owner and n not in have)
    while todo:
        n = sorted(todo)[0]; s = owner[n]; files.append(s); have |= info[s][0]
        if not one: need |= info[s][1]
        todo = set(x for x in need if x in owner and x not in have)
    print(h, len(files)); print(' '.join(f.replace('/repo/', '') for f in files))
