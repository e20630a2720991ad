#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decides one property by symbolic execution of the real code.

For every harness /verif/harness/<ID>_*.cpp and every configuration it names, the harness (which includes
/repo/include) is compiled to LLVM IR from the current tree, each entry is executed symbolically by .build/xsym,
sampled path models are replayed on the real build, and every counterexample is replayed on the real build
(ASan+UBSan, MSan or TSan) before it is reported."""
import concurrent.futures
import sys, os, re, json, subprocess, time, tempfile, shutil, glob, threading, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XSYM_REPO', '/repo')
INC = ['-I', f'{REPO}/include', '-I', f'{V}/rt', '-I', f'{V}/harness']
BUILD = f'{V}/.build'
EV = os.environ.get('XSYM_EVIDENCE', f'{V}/evidence')   # elsewhere when another tree is judged
CONFIGS = {
    'none': [],
    'sse': ['-msse4.2', '-mssse3', '-DXME_SIMD_ENABLE_SSE42'],
    'avx2': ['-mavx2', '-DXME_SIMD_ENABLE_AVX2'],
    'lh': ['-DXME_MATH_CLIP_LH'],
    'cxx23': [],
    'ndebug': ['-DNDEBUG'],
    'this23': ['-D__cpp_explicit_this_parameter=202110L'],  # C++23 explicit object parameters, which clang 18 implements without announcing it
    'use_sse2': ['-DXME_SIMD_ENABLE_SSE2'],
    'use_ssse3': ['-mssse3', '-DXME_SIMD_ENABLE_SSSE3'],
    'use_avx': ['-mavx', '-DXME_SIMD_ENABLE_AVX'],
    'use_sse41': ['-msse4.1', '-DXME_SIMD_ENABLE_SSE41'],
    'use_sse3': ['-msse3', '-DXME_SIMD_ENABLE_SSE3'],
    'use_sse': ['-DXME_SIMD_ENABLE_SSE'],
    'use_mmx': ['-DXME_SIMD_ENABLE_MMX'],
    'use_avx512f': ['-mavx2', '-D__AVX512F__=1', '-DXME_SIMD_ENABLE_AVX512F'],
    'has_sse41': ['-msse4.1'],
    'has_sse42': ['-msse4.2'],
    'has_ssse3': ['-mssse3'],
    'has_sse3': ['-msse3'],
    'has_avx': ['-mavx'],
    'has_avx2': ['-mavx2'],
    'full': ['-mavx2', '-D__AVX512F__=1'], **{'full_' + x.lower(): ['-mavx2', '-D__AVX512F__=1', '-DXME_SIMD_ENABLE_' + x] for x in ('MMX', 'SSE', 'SSE2', 'SSE3', 'SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2')},
}
def cfgflags(c):
    return CONFIGS[c] if c in CONFIGS else []
CLANG_ONLY = {'this23'}
def stdflag(c): return '-std=c++23' if c in ('cxx23', 'this23') else '-std=gnu++20' if c == 'gnu' else '-std=c++20'

def run(cmd, timeout=None, env=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, input=inp)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')

class Ctx: pass

def meta(path):
    m = {'configs': ['none'], 'bounds': [], 'assume': [], 'opt': {}, 'reach': [], 'flags': [], 'optional': False}
    for l in open(path):
        q = re.match(r'//\s*@(\w+)\s*(.*)', l)
        if not q: continue
        k, v = q.group(1), q.group(2).strip()
        if k == 'configs': m['configs'] = [x.strip() for x in v.split(',')]
        elif k == 'qconfigs': m['qconfigs'] = [x.strip() for x in v.split(',')]
        elif k in ('bounds', 'assume', 'reach', 'needs'): m.setdefault(k, []).append(v)
        elif k == 'opt':
            for kv in v.split(): a, b = kv.split('='); m['opt'][a] = b
        elif k == 'flags': m['flags'] += v.split()
        elif k == 'optional': m['optional'] = True
    return m

def compile_bc(src, cfg, tier, out, flags):
    base = out[:-3]
    cmd = ['clang++-18' if shutil.which('clang++-18') else 'clang++', stdflag(cfg), '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-vectorize',
           '-gline-tables-only', '-fsized-deallocation', '-w', '-DXS_SYM', f'-DXS_TIER={1 if tier == "thorough" else 0}', '-emit-llvm', '-c', *cfgflags(cfg), *flags, *INC, src, '-o', base + '.raw.bc']
    rc, o, e = run(cmd, timeout=300)
    if rc != 0: return False, e
    rc, o, e = run(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=function(mem2reg,simplifycfg)', base + '.raw.bc', '-o', out], timeout=300)
    if rc != 0: return False, e
    return True, ''

SAN = {
    'asan': (['g++'], ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'asanO0': (['g++'], ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'msan': (['clang++'], ['-O1', '-g', '-fsanitize=memory', '-fno-sanitize-recover=all', '-Wl,-z,muldefs']),
    'tsan': (['g++'], ['-O1', '-g', '-fsanitize=thread', *(f'-Wl,--wrap=__tsan_atomic{n}_{o}' for n in (8, 32, 64) for o in ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'compare_exchange_strong'))]),
}
class Native:
    def __init__(s, src, cfg, tier, tmp, flags): s.src, s.cfg, s.tier, s.tmp, s.flags = src, cfg, tier, tmp, flags; s.bins = {}; s.lock = {k: threading.Lock() for k in SAN}; s.err = ''
    def get(s, san):
        with s.lock[san]:
            if san in s.bins: return s.bins[san]
            out = f'{s.tmp}/{os.path.basename(s.src)}.{s.cfg}.{san}'
            cc, fl = SAN[san]
            if s.cfg in CLANG_ONLY: cc, fl = ['clang++'], [*fl, '-Wl,-z,muldefs']
            rc, o, e = run([*cc, stdflag(s.cfg), '-w', '-pthread', f'-DXS_TIER={1 if s.tier == "thorough" else 0}', '-ffp-contract=off', *fl, *cfgflags(s.cfg), *s.flags, *INC, s.src, f'{V}/rt/xs_rt.cpp', '-o', out], timeout=600)
            if rc != 0: s.err = e; out = None
            s.bins[san] = out
            return out
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:exitcode=99:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99', MSAN_OPTIONS='exitcode=99', TSAN_OPTIONS='exitcode=99:halt_on_error=1')

def norm_loc(loc):
    return loc

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); pid = a.id; tier = a.tier; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rc, o, e = run(['bash', f'{V}/engine/build.sh'], timeout=900)
    if rc != 0: print('engine build failed', e[-3000:]); return 2
    srcs = sorted(glob.glob(f'{V}/harness/{pid}_*.cpp'))
    if not srcs: print('no harness for', pid); return 2
    tmp = tempfile.mkdtemp(prefix=f'xs_{pid}_')
    rdir = f'{EV}/replay/{pid}'; shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    violations, errors, notes, known = [], [], [], []
    jobs, natives, metas = [], {}, {}
    try:
        pool = ThreadPoolExecutor(max_workers=int(os.environ.get('XSYM_JOBS', '8')))
        comp = []
        for src in srcs:
            m = meta(src); metas[src] = m
            cfgs = m['configs'] if tier == 'thorough' else m.get('qconfigs', m['configs'])
            for cfg in cfgs:
                out = f'{tmp}/{os.path.basename(src)}.{cfg}.bc'
                comp.append((src, cfg, out, pool.submit(compile_bc, src, cfg, tier, out, m['flags'])))
        for src, cfg, out, f in comp:
            ok, err = f.result()
            natives[(src, cfg)] = Native(src, cfg, tier, tmp, metas[src]['flags'])
            if not ok:
                rc, o, e2 = run(['clang++' if cfg in CLANG_ONLY else 'g++', stdflag(cfg), '-w', '-fsyntax-only', *cfgflags(cfg), *metas[src]['flags'], *INC, src], timeout=300)
                if metas[src]['optional']:
                    notes.append(f'optional harness {os.path.basename(src)} ({cfg}) does not compile against this tree and was dropped'); continue
                log = f'{rdir}/compile-{os.path.basename(src)}-{cfg}.log'; open(log, 'w').write(err + '\n---- g++ ----\n' + e2)
                if rc != 0: violations.append({'kind': 'compile', 'msg': 'public API used by the harness does not compile: ' + next((l for l in e2.splitlines() if 'error' in l), '')[:300], 'replay': log, 'entry': os.path.basename(src)})
                else: errors.append(f'{os.path.basename(src)} ({cfg}): clang rejects the harness: {err[:400]}')
                continue
            rc, o, e = run(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', '--defined-only', out])
            ents = sorted(set(re.findall(r' T (e[t]?_\w+)$', o, re.M)))
            for en in ents:
                if en.startswith('et_') and tier != 'thorough': continue
                if a.only and not re.search(a.only, en): continue
                jobs.append((src, cfg, out, en))
        nopt = {}
        confirmed = threading.Event(); fast = bool(os.environ.get('XSYM_FASTFAIL')); skipped = []
        def symrun(j):
            el = time.time() - t0
            if (confirmed.is_set() and (fast or el > 240)) or el > (560 if tier == 'quick' else 800): skipped.append(j[3]); return j, None, 'skipped'
            src, cfg, bc, en = j; m = metas[src]; res = f'{tmp}/{os.path.basename(src)}.{cfg}.{en}.json'
            tb = float(m['opt'].get('time', 240 if tier == 'quick' else 500))
            if tier == 'quick': tb = float(m['opt'].get('qtime', tb))
            cmd = [f'{BUILD}/xsym', bc, '--entry', en, '--out', res, '--seed', str(seed), '--time', str(tb), '--qtimeout', m['opt'].get('qtimeout', '20000'), '--maxpaths', m['opt'].get('maxpaths', '2000000'), '--maxsteps', m['opt'].get('maxsteps', '2000000'), '--samples', m['opt'].get('samples', '5')]
            rc, o, e = run(cmd, timeout=tb + 120)
            if rc != 0 or not os.path.exists(res): return j, None, f'engine rc={rc} {e[-300:]}'
            try: return j, json.load(open(res)), ''
            except Exception as ex: return j, None, f'engine output: {ex}'
        def replay_one(nat, san, en, lines, name, timeout=60, reps=1):
            b = nat.get(san)
            if not b: return None, f'native build ({san}) failed: {nat.err[:300]}'
            f = f'{tmp}/{name}.in'; open(f, 'w').write('\n'.join(lines) + '\n')
            return run([b, en, f, str(reps)], timeout=timeout, env=ENV)[0:3], f
        # native builds for trace validation start now, in parallel with the symbolic runs
        symf = [pool.submit(symrun, j) for j in jobs]
        tot = dict(paths=0, infeasible=0, instrs=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, obligations=0, discharged=0, trivial=0, inconclusive=0, memchecks=0, realeq=0, realeq_exact=0, concretized=0)
        funcs, reached, samples, per, checks, stubs = set(), {}, [], [], {}, set()
        valf = []
        def validate(j, d):
            src, cfg, bc, en = j; nat = natives[(src, cfg)]; n = 0; bad = []
            for k, s in enumerate(d.get('samples', [])):
                r, f = replay_one(nat, 'asan', en, s['in'], f'val-{os.path.basename(src)}-{cfg}-{en}-{k}')
                if r is None: return 0, [('error', f, None)]
                rc, o, e = r
                if rc == 78: bad.append(('mismatch', f'{en} [{cfg}]: encoding and native run diverge: {(o + e)[-300:]}', f)); continue
                if rc != 0: bad.append(('fail', f'{en} [{cfg}]: a path the encoding calls safe fails natively (rc={rc}): {(o + e)[-600:]}', f)); continue
                exp = s['obs']; got = re.findall(r'^(OBSF?) (\S+) (\S+)$', o, re.M)
                okk = len(exp) == len(got)
                for x, (t, l, v) in zip(exp, got):
                    lx, vx = x.rsplit(' ', 1)
                    if lx != l: okk = False
                    elif vx == '?': pass
                    elif t == 'OBS' and vx != v: okk = False
                    elif t == 'OBSF':
                        try:
                            p = float(vx) if ('.' in vx or 'e' in vx or len(vx) < 12 or 'n' in vx) else None
                            import struct
                            q = float(v)
                            if p is not None and abs(p - q) <= 1e-3 * (abs(p) + abs(q) + 1): continue
                            pb = struct.unpack('<d', struct.pack('<Q', int(vx) & (2**64 - 1)))[0]
                            if not (pb == q or (pb != pb and q != q) or abs(pb - q) <= 1e-3 * (abs(pb) + abs(q))): okk = False
                        except Exception: okk = False
                if not okk: bad.append(('mismatch', f'{en} [{cfg}]: encoding and native run disagree: expected {exp} got {got}', f))
                else: n += 1
            return n, bad
        def replay_all(j, d):
            src, cfg, bc, en = j; nat = natives[(src, cfg)]
            for vi, v in enumerate(d['violations']):
                done = False; log = ''
                for ci, lines in enumerate(v['inputs']):
                    kinds = ['asan', 'asanO0']
                    if v['kind'] == 'uninit': kinds = ['msan', 'asan']
                    if v['kind'] == 'race' or v['sched']: kinds = ['tsan', 'asan']
                    for san in kinds:
                        reps = 8000 if san == 'tsan' else 1
                        hang = v['kind'] == 'hang'
                        r, f = replay_one(nat, san, en, lines, f'cex-{os.path.basename(src)}-{cfg}-{en}-{vi}-{ci}', timeout=120 if san == 'tsan' else 20, reps=reps)
                        if r is None: log += f; continue
                        rc, o, e = r
                        rep = (rc == 'timeout' and hang) or (rc not in (0, 78, 'timeout', 2) and rc is not None)
                        log += f'[{san}] rc={rc} {(o + e)[-1500:]}\n'
                        if rep:
                            rp = f'{rdir}/{en}-{cfg}-{vi}.txt'
                            open(rp, 'w').write(f'# property {pid}\n# entry {en} of harness {os.path.basename(src)}, configuration {cfg}, tier {tier}\n# {v["kind"]}: {v["msg"]}\n# at {v["loc"]}\n# schedule {v["sched"]}\n# solver assignment (inputs of the harness, in order):\n' + '\n'.join(lines) + '\n# native replay:\n' + '\n'.join('# ' + l for l in log[-4000:].splitlines()) + f'\n# to replay: {" ".join(SAN[san][0] + SAN[san][1])} {" ".join(cfgflags(cfg))} -std=c++20 -I/repo/include -I/verif/rt {src} /verif/rt/xs_rt.cpp && ./a.out {en} THIS_FILE\n')
                            violations.append({'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'replay': rp, 'entry': en, 'cfg': cfg}); done = True; confirmed.set(); break
                    if done: break
                if not done and v['kind'] == 'hang': notes.append(f'{en} [{cfg}]: a path was abandoned at the step limit and does not hang natively')
                elif not done and v['kind'] not in ('precision', 'libm'): # (libm: the solver chose values the library functions do not take)
                    errors.append(f'{en} [{cfg}]: counterexample not reproduced natively: {v["kind"]}: {v["msg"]} at {v["loc"][:300]} inputs={v["inputs"][:1]} {log[-700:]}')
        results, cexf = [], []; cexpool = ThreadPoolExecutor(max_workers=4)
        for f in concurrent.futures.as_completed(symf):
            j, d, err = f.result(); results.append((j, d, err))
            src, cfg, bc, en = j
            if d is None:
                if err != 'skipped': errors.append(f'{en} [{cfg}]: {err}')
                continue
            if d['violations']: cexf.append(cexpool.submit(replay_all, j, d))
            for k in tot: tot[k] += d.get(k, 0)
            funcs.update(d['functions']); stubs.update(d['stubs'])
            for k, v in d['reached'].items(): reached[k] = reached.get(k, 0) + v
            for k, v in d['checks'].items(): checks[k] = checks.get(k, 0) + v
            if d['unsupported']: errors.append(f'{en} [{cfg}]: unsupported: {d["unsupported"][:3]}')
            if d['inconclusive'] and not d['violations']: notes.append(f'{en} [{cfg}]: {int(d["inconclusive"])} inconclusive obligations: {d["inconclusive_list"][:3]}')
            if d['stopped'] and not d['violations']: notes.append(f'{en} [{cfg}]: exploration incomplete ({d["stopped"]})')
            if not d['obligations'] and not d['violations'] and not d['unsupported']: errors.append(f'{en} [{cfg}]: vacuous: no check was reached')
            per.append({'entry': en, 'config': cfg, 'harness': os.path.basename(src), 'paths': int(d['paths']), 'instructions': int(d['instrs']), 'queries': int(d['queries']), 'solver_s': round(d['solver_s'], 3), 'obligations': int(d['obligations']), 'discharged': int(d['discharged']), 'wall_s': round(d['wall_s'], 2)})
            for s in d['samples'][:1]:
                if len(samples) < 8: samples.append({'entry': en, 'config': cfg, 'path_model': s['in'], 'observed': s['obs']})
            valf.append((j, pool.submit(validate, j, d)))
        ntr = 0
        for f in cexf: f.result()
        if skipped and not violations: errors.append(f'{len(skipped)} entries were not run within the time')
        for j, f in valf:
            n, bad = f.result(); ntr += n
            for kind, msg, fl in bad:
                if kind == 'fail':
                    rp = f'{rdir}/trace-{j[3]}-{j[1]}.txt'
                    if os.path.exists(fl or ''): open(rp, 'w').write(f'# {msg}\n' .replace('\n', '\n# ') + '\n' + open(fl).read())
                    violations.append({'kind': 'native', 'msg': msg[:500], 'replay': rp, 'entry': j[3], 'cfg': j[1], 'loc': ''})
                else: errors.append(msg)
        pool.shutdown()
        want = set()
        for src in srcs:
            txt = open(src).read()
            for q in re.findall(r'xs_reach\("([^"]+)"\)', txt): want.add(q)
        if not a.only:
            for w in sorted(want):
                if w not in reached and not violations: (notes if any('exploration incomplete' in n or 'step limit' in n for n in notes) else errors).append(f'vacuity: label "{w}" was never reached')
        # known findings
        kf = []
        if os.path.exists(f'{V}/known_findings.txt'):
            for l in open(f'{V}/known_findings.txt'):
                q = re.match(r'known: property=(\w+) match=(\S+) (.*)', l.strip())
                if q and q.group(1) == pid: kf.append((re.compile(q.group(2)), q.group(3)))
        left = []
        for v in violations:
            k = next((x for x in kf if x[0].search(f"{v.get('entry')}|{v.get('cfg')}|{v['kind']}|{v['msg']}".replace(' ', '_'))), None)
            if k: known.append(k[1])
            else: left.append(v)
        violations = left
        for k in sorted(set(known)): print(f'KNOWN-FINDING: property={pid} {k}')
        for v in violations:
            print(f"VIOLATION property={pid} replay={v['replay']}")
            print(f"  {v['kind']}: {v['msg']}\n  entry {v.get('entry')} [{v.get('cfg', '')}] {v.get('loc', '')[:600]}")
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
              'assumptions': sorted({x for m in metas.values() for x in m['assume']}) + ['engine model: LLVM IR semantics of clang 18 -O1 without optimisation passes; no allocation reuse, guard gaps between objects; libm sin/cos/tan/... are uninterpreted (sqrt: s>=0 and s*s=x)'],
              'coverage': {'states': int(tot['paths']), 'transitions': int(tot['instrs']), 'traces_validated_against_impl': ntr, 'samples': samples or ['none'],
                           'deciding': 'symbolic execution of LLVM IR compiled from /repo in this run; Z3 decides every branch and every asserted condition for all values within the bounds',
                           'bounds': [x for m in metas.values() for x in m['bounds']], 'configurations': sorted({c for (_, c) in natives}),
                           'obligations': int(tot['obligations']), 'discharged': int(tot['discharged']), 'discharged_by_constant_folding': int(tot['trivial']), 'memory_accesses_checked': int(tot['memchecks']),
                           'paths_forked': int(tot['forks']), 'queries': int(tot['queries']), 'queries_unsat': int(tot['unsat']), 'queries_sat': int(tot['sat']), 'queries_unknown': int(tot['unknown']), 'solver_s': round(tot['solver_s'], 2),
                           'real_equalities': int(tot['realeq']), 'real_equalities_bit_exact_on_grid': int(tot['realeq_exact']),
                           'functions_encoded': sorted(funcs)[:400], 'functions_encoded_count': len(funcs), 'checked_conditions': checks, 'vacuity_labels_reached': reached, 'entries': per, 'stubs': sorted(stubs), 'notes': notes, 'errors': errors, 'known_findings': sorted(set(known))}}
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(f'{EV}/{pid}.json', 'w'), indent=1)
        for n in notes: print('note:', n)
        if errors:
            for x in errors[:30]: print('ERROR:', x)
        print(f'{pid} {tier}: {len(jobs)} entries, {int(tot["paths"])} paths, {int(tot["obligations"])} obligations ({int(tot["discharged"])} discharged), {int(tot["queries"])} queries, solver {tot["solver_s"]:.1f}s, {ntr} traces validated, {len(violations)} violations, {len(errors)} errors, {time.time() - t0:.1f}s')
        if a.v:
            for p in sorted(per, key=lambda x: -x['wall_s'])[:12]: print('  ', p)
        if violations: return 1
        return 2 if errors else 0
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)
sys.exit(main())
