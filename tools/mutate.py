#!/usr/bin/env python3
# Mutation study: small textual changes to the headers, each judged by the checks of the properties anchored in the file; a
# change no check reports is built and tested, and if it passes the tests it is listed for inspection (equivalent or a gap).
#   tools/mutate.py [--files REGEX] [--sample N] [--seed S] [--workers W] ; results in .build/mutants.jsonl
import sys, os, re, subprocess, json, random, argparse, threading, queue, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
a = argparse.ArgumentParser(); a.add_argument('--files', default='.'); a.add_argument('--sample', type=int, default=0); a.add_argument('--seed', type=int, default=1); a.add_argument('--workers', type=int, default=3); a.add_argument('--out', default=V + '/.build/mutants.jsonl'); a.add_argument('--list', action='store_true'); a = a.parse_args()
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
fp = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    if d['id'][0] == 'N': continue
    for f in d['anchors']['files']: fp.setdefault(f, []).append(d['id'])
fp['include/xme/container/icontainer.hpp'] = ['C01', 'C08', 'C10']; fp['include/xme/container/concepts.hpp'] = ['C14', 'C15']; fp['include/xme/math/glsl_mapping.hpp'] = ['M03', 'M05', 'M13', 'M14']
OPS = [(r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' & ', ' | '), (r' \| ', ' & '),
       (r'\+\+', '--'), (r'(?<!<)--', '++'), (r' && (?!noexcept|std::is_|requires)', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' <=> ', ' SWAP3 '),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'memory_order_acquire', 'memory_order_relaxed'), (r'memory_order_release', 'memory_order_relaxed'), (r'std::move\((\w+)\)', r'\1'), (r'std::forward<[\w.&]+>\((\w+)\)(?!\.\.\.)', r'\1'),
       (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\.z\b', '.y'), (r'\.w\b', '.z'), (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'), (r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'\bm_data\.end\b', 'm_data.begin'), (r'\bm_data\.storage_end\b', 'm_data.end'), (r'\bm_data\.begin\b', 'm_data.end'),
       (r'\bfirst\b', 'last'), (r'\blast\b', 'first'), (r'if\((?!constexpr)(.*)\)$', r'if(!(\1))'), (r'\bn\b', '(n + 1)'), (r'\bsize\(\)', 'capacity()'), (r'\bcapacity\(\)', 'size()'), (r'\bm_head\b', 'm_tail'), (r'\bm_tail\b', 'm_head'), (r'(?<=[(, ])-(?=\w)', ''), (r'return (.*);$', r'return -(\1);'),
       (r'\blength\b', 'size'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\bnear\b', 'far'), (r'\bfar\b', 'near'), (r'\bright\b', 'left'), (r'\bleft\b', 'right'), (r'\btop\b', 'bottom'), (r'\bbottom\b', 'top')]
def muts(f):
    out = []; L = open(f'{R}/{f}').read().split('\n'); com = False
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#include') or s.startswith('template') or s.startswith('static_assert') or s.startswith('using ') or s.startswith('requires') or s.startswith('concept') or 'noexcept(' in s and ';' not in s or s.startswith('#') or s.startswith('namespace') or s.startswith('* ') or s.startswith('assert('): continue
        for p, r in OPS:
            for m in re.finditer(p, l):
                if '//' in l[:m.start()]: continue
                if p in (r'\b0\b', r'\b1\b', r'\b2\b', r'\b3\b', r'\b4\b') and re.search(r'std::|size_t|template', l) and '[' not in l and 'get<' not in l: continue
                n = l[:m.start()] + m.expand(r) + l[m.end():]
                if n != l: out.append((f, i, l, n))
        if s.endswith(';') and not re.match(r'(return|using|auto|const|constexpr|static|friend|template|explicit|throw|typename|T |U |pointer|size_type|node|std::size_t)', s) and '(' in s or re.match(r'^[\w.\[\]>-]+\s+[-+*/]?= .*;$', s): out.append((f, i, l, re.match(r'\s*', l).group(0) + (';' if not s.startswith('}') else s)))
    return list(dict.fromkeys(out))
files = [f for f in fp if re.search(a.files, f)]
work = [m for f in sorted(files) for m in muts(f)]
print(len(work), 'mutants of', len(files), 'files')
random.seed(a.seed)
if a.sample and a.sample < len(work): work = random.sample(work, a.sample)
else: random.shuffle(work)
if a.list:
    for w in work: print(w[0], w[1] + 1, w[2].strip(), '=>', w[3].strip())
    sys.exit()
done = set()
if os.path.exists(a.out):
    for l in open(a.out): d = json.loads(l); done.add((d['file'], d['old'], d['new'], d['line']))
Q = queue.Queue(); lock = threading.Lock()
for w in work:
    if (w[0], w[2], w[3], w[1] + 1) not in done: Q.put(w)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def worker(k):
    S = f'/tmp/mutants{k}'; shutil.rmtree(S, ignore_errors=True); os.makedirs(S + '/vp')
    sh(f'cd {R} && git ls-files -z | rsync -a --from0 --files-from=- . {S}/repo/'); sh(f'find {S}/repo -type f -exec touch {{}} +')
    for f in ('configure.sh', 'build.sh', 'test.sh'): open(f'{S}/vp/{f}', 'w').write(open(f'/opt/vp/{f}').read().replace('/repo', S + '/repo').replace('. /opt/vp/configure.sh', f'. {S}/vp/configure.sh').replace('-j8', '-j3'))
    while True:
        try: f, i, old, new = Q.get_nowait()
        except queue.Empty: break
        p = f'{S}/repo/{f}'; src = open(f'{R}/{f}').read().split('\n')
        if src[i] != old: continue
        src[i] = new; open(p, 'w').write('\n'.join(src)); t0 = time.time(); verdict = 'survived'; by = ''
        ok = any(sh(f'cd {S}/repo && echo "#include \\"{f}\\"" > /tmp/mut{k}.cpp && g++ -std=c++20 -w -I include -I . -fsyntax-only /tmp/mut{k}.cpp').returncode == 0 for _ in [0])
        if not ok: verdict = 'nocompile'
        else:
            for pid in fp[f]:
                r = sh(['timeout', '1000', 'python3', V + '/check.py', pid], env=dict(os.environ, XSYM_REPO=S + '/repo', XSYM_JOBS='4', XSYM_EVIDENCE=f'{S}/evidence', XSYM_FASTFAIL='1'))
                if r.returncode == 1: verdict, by = ('killed' if 'does not compile' not in r.stdout else 'nocompile-use'), pid; break
                if r.returncode != 0: verdict, by = 'noanswer', pid + ' ' + r.stdout[-600:]; break
            if verdict in ('survived', 'noanswer'):
                r = sh(['bash', S + '/vp/build.sh'])
                if r.returncode: verdict += '-nobuild'
                else:
                    sh(['bash', S + '/vp/test.sh', S + '/out.json']); miss = STABLE - set(json.load(open(S + '/out.json'))['passed'])
                    if miss: verdict += '-tests'
        open(p, 'w').write(open(f'{R}/{f}').read())
        with lock:
            open(a.out, 'a').write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, verdict=verdict, by=by, s=round(time.time() - t0, 1))) + '\n')
            if verdict not in ('killed', 'nocompile', 'nocompile-use'): print(verdict, f, i + 1, old.strip(), '=>', new.strip(), by[:300], flush=True)
    shutil.rmtree(S, ignore_errors=True)
T = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
for t in T: t.start()
for t in T: t.join()
