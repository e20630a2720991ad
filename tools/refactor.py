#!/usr/bin/env python3
# Behaviour-preserving edits: tools/refactors/*.py hold refactor(group, id, edits); a group is applied as a whole to a scratch
# copy, which must still build and pass the tests; then the checks run on it and must stay quiet.
#   tools/refactor.py [--group REGEX] [--only REGEX of ids] [--props REGEX] [--tier T] [--no-build]
import sys, os, re, subprocess, json, glob, argparse, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.argv0 = 1
import importlib.util
os.environ.setdefault('SEED_SCRATCH', '/tmp/refscratch')
src = open(V + '/tools/seeded.py').read().rsplit('main()', 1)[0]; g = {'__file__': V + '/tools/seeded.py', '__name__': 's'}; exec(compile(src, 'seeded', 'exec'), g)
S, sh, scratch = g['S'], g['sh'], g['scratch']
L = []
def refactor(group, id, *edits): L.append((group, id, edits))
for f in sorted(glob.glob(f'{V}/tools/refactors/*.py')): exec(compile(open(f).read(), f, 'exec'), {'refactor': refactor})
a = argparse.ArgumentParser(); a.add_argument('--group', default=''); a.add_argument('--only', default=''); a.add_argument('--props', default='.'); a.add_argument('--tier', default='quick'); a.add_argument('--no-build', action='store_true'); a.add_argument('--apply-only', action='store_true'); a = a.parse_args()
scratch(); bad = 0
for grp in sorted({x[0] for x in L}):
    if not re.search(a.group, grp): continue
    sh(f'git -C {S}/repo checkout -q -- .')
    for gg, id, edits in L:
        if gg != grp or not re.search(a.only, id): continue
        for f, old, new in edits:
            p = f'{S}/repo/{f}'; t = open(p).read()
            if t.count(old) != 1: print('BAD EDIT', id, f, t.count(old), old[:200]); sys.exit(2)
            open(p, 'w').write(t.replace(old, new))
    if a.apply_only: continue
    if not a.no_build:
        r = sh(['bash', S + '/vp/build.sh'])
        if r.returncode: print(grp, 'BUILD FAILS', r.stdout[-3000:]); bad = 1; continue
        o = S + '/out.json'; r = sh(['bash', S + '/vp/test.sh', o]); j = json.load(open(o)); miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(j['passed'])
        if miss: print(grp, 'TESTS FAIL', miss); bad = 1; continue
    print(grp, 'builds and passes the tests', flush=True)
    for p in [os.path.basename(x)[:3] for x in sorted(glob.glob(V + '/harness/???_*.cpp'))]:
        if not re.search(a.props, p): continue
        r = sh(['python3', V + '/check.py', p, '--tier', a.tier], env=dict(os.environ, XSYM_REPO=S + '/repo', XSYM_EVIDENCE=S + '/evidence'))
        if r.returncode: bad = 1; print('   ', grp, p, 'exit', r.returncode, r.stdout[-1500:], flush=True)
    print(grp, 'done', flush=True)
if not a.apply_only: sh(f'git -C {S}/repo checkout -q -- .')
sys.exit(bad)
