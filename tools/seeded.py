#!/usr/bin/env python3
# Plants bugs: tools/bugs/*.py hold specifications bug(id, property, edits, needs, what, demo, flags); this script makes
# seeded/<id>/ from each, confirms it in a scratch copy (original lines only, builds, stable tests pass, demo passes
# without and fails with the patch), and runs the property's check against the patched copy.
#   tools/seeded.py [--no-check] [--only REGEX] [--check-only] [--tier T] [--all-checks]   ; results in .build/seeded.json
import sys, os, re, subprocess, json, shutil, glob, argparse, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'; S = os.environ.get('SEED_SCRATCH', '/tmp/seedscratch')
BUGS = []
def bug(id, prop, edits, needs, what, demo, flags='', libs='', pre='', cxx='g++ -std=c++20'):
    if isinstance(edits, tuple): edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, flags=flags, libs=libs, pre=pre, cxx=cxx))
def load():
    for f in sorted(glob.glob(f'{V}/tools/bugs/*.py')): exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    assert len({b['id'] for b in BUGS}) == len(BUGS)
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
SCRIPT = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s%s -I include %s "$d/demo.cpp" -o "$t/demo" %s || exit 3
cd "$t" && timeout 120 ./demo
'''
def scratch():
    if not os.path.isdir(S + '/repo'):
        os.makedirs(S, exist_ok=True)
        sh(f'cd {R} && git ls-files -z | rsync -a --from0 --files-from=- . {S}/repo/')
        os.makedirs(S + '/vp', exist_ok=True)
        for f in ('configure.sh', 'build.sh', 'test.sh'):
            t = open(f'/opt/vp/{f}').read().replace('/repo', S + '/repo').replace('. /opt/vp/configure.sh', f'. {S}/vp/configure.sh')
            open(f'{S}/vp/{f}', 'w').write(t)
    sh(f'rm -rf {S}/repo/_build'); sh(f'cd {R} && git ls-files -z | rsync -a --checksum --from0 --files-from=- . {S}/repo/'); sh(f'find {S}/repo/include {S}/repo/private {S}/repo/source -type f -exec touch {{}} +')
    if not os.path.isdir(S + '/repo/.git'): sh(f'cd {S}/repo && git init -q && printf "_build\\n" > .git/info/exclude && git add -A && git -c user.name=x -c user.email=x commit -qm x')
    else: sh(f'cd {S}/repo && git add -A && git -c user.name=x -c user.email=x commit -qm x')
def blame(f):
    return [l.startswith('^125835d') or l.startswith('125835d') for l in sh(['git', '-C', R, 'blame', '-s', f]).stdout.splitlines()]
def make(b):
    d = f'{V}/seeded/{b["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f'git -C {S}/repo checkout -q -- .')
    for f, old, new in b['edits']:
        p = f'{S}/repo/{f}'; t = open(p).read()
        assert t.count(old) == 1, (b['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', '-C', S + '/repo', 'diff', '-U3']).stdout
    open(d + '/patch.diff', 'w').write(diff)
    # removed lines must be original
    bad = []; removed = 0; f = None; n = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]; bl = blame(f)
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('---') or l.startswith('+++'): pass
        elif l.startswith('-'):
            removed += 1
            if not bl[n - 1]: bad.append((f, n, l))
            n += 1
        elif l.startswith(' '): n += 1
    open(d + '/demo.cpp', 'w').write(b['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write(SCRIPT % (b['pre'], b['cxx'], b['flags'], b['libs'])); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['what']), open(d + '/meta.json', 'w'), indent=1)
    err = []
    if bad or not removed: err.append(f'lines not original: {bad} removed {removed}')
    t = tempfile.mkdtemp(); shutil.copytree(d, t + '/x')
    r = sh(['bash', t + '/x/demo.sh'], cwd=S + '/repo')
    if r.returncode == 0: err.append('demo passes with the patch')
    elif r.returncode == 3: err.append('demo does not compile with the patch: ' + r.stdout[-600:])
    demo_out = r.returncode
    # bash demo on the clean tree
    r = sh(['bash', t + '/x/demo.sh'], cwd=R)
    if r.returncode: err.append(f'demo fails on the clean tree ({r.returncode}): ' + r.stdout[-800:])
    shutil.rmtree(t)
    r = sh(['bash', S + '/vp/build.sh'])
    if r.returncode: err.append('build fails: ' + r.stdout[-600:])
    else:
        o = S + '/out.json'; r = sh(['bash', S + '/vp/test.sh', o]); j = json.load(open(o))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); miss = stable - set(j['passed'])
        if miss: err.append('tests fail: ' + ', '.join(sorted(miss)))
    return err, demo_out
def main():
    a = argparse.ArgumentParser(); a.add_argument('--no-check', action='store_true'); a.add_argument('--only'); a.add_argument('--check-only', action='store_true')
    a.add_argument('--tier', default='quick'); a.add_argument('--all-checks', action='store_true'); a = a.parse_args()
    load(); scratch(); os.makedirs(V + '/.build', exist_ok=True); rf = V + '/.build/seeded.json'
    try: res = json.load(open(rf))
    except Exception: res = {}
    for b in BUGS:
        if a.only and not re.search(a.only, b['id']): continue
        e = res.setdefault(b['id'], {})
        if a.check_only:
            sh(f'git -C {S}/repo checkout -q -- .')
            r = sh(f'git -C {S}/repo apply {V}/seeded/{b["id"]}/patch.diff'); err = [] if not r.returncode else [r.stdout]
        else:
            try: err, demo = make(b)
            except AssertionError as x: err = [str(x)]
        e['errors'] = err
        print(b['id'], b['prop'], 'OK' if not err else 'REJECT ' + ' | '.join(err)[:1500], flush=True)
        if err or a.no_check: continue
        props = [b['prop']] if not a.all_checks else [os.path.basename(x)[:3] for x in sorted(glob.glob(V + '/harness/???_*.cpp'))]
        for p in props:
            r = sh(['python3', V + '/check.py', p, '--tier', a.tier], env=dict(os.environ, XSYM_REPO=S + '/repo', XSYM_EVIDENCE=S + '/evidence'))
            viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            e.setdefault('checks', {})[p] = r.returncode
            print('   ', p, 'exit', r.returncode, viol[:2], '' if r.returncode in (0, 1) else r.stdout[-800:], flush=True)
        json.dump(res, open(rf, 'w'), indent=1)
    sh(f'git -C {S}/repo checkout -q -- .')
main()
