#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, approach, level=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, approach=approach))
I, PR, H, F, S, CF = 'inputs', 'programs', 'histories', 'fault_sequences', 'schedules', 'configurations'
A = 'include/xme/container/array.hpp'; LL = 'include/xme/container/linked_list.hpp'; LB = 'private/container/linked_list_base.hpp'
SQ = 'include/xme/container/spsc_queue.hpp'; SB = 'private/container/spsc_queue_base.hpp'; TU = 'include/xme/container/tuple.hpp'; TB = 'private/container/tuple_base.hpp'
PA = 'include/xme/container/pair.hpp'; HE = 'include/xme/container/heap.hpp'; AV = 'include/xme/container/array_view.hpp'; AD = 'include/xme/container/aligned_data.hpp'
UN = 'include/xme/ranges/uninitialized.hpp'; DE = 'include/xme/ranges/destroy.hpp'; FI = 'include/xme/core/algorithm/find.hpp'; RE = 'include/xme/core/algorithm/reverse.hpp'
DL = 'include/xme/core/functional/delegate.hpp'; BI = 'include/xme/core/functional/bind.hpp'; SD = 'include/xme/core/functional/scoped_delegate.hpp'
RI = 'include/xme/core/iterators/reverse_iterator.hpp'; CI = 'include/xme/core/iterators/const_iterator.hpp'; FL = 'include/xme/core/utility/forward_like.hpp'; TUN = 'include/xme/core/utility/to_unsigned.hpp'; HB = 'include/xme/core/bit/has_single_bit.hpp'
MV = 'include/xme/math/vector.hpp'; V2, V3, V4 = [f'include/xme/math/vectors/vector{k}.hpp' for k in (2, 3, 4)]; VF = 'include/xme/math/vectors/functions.hpp'; VG = 'include/xme/math/vectors/geometry.hpp'
MM = 'include/xme/math/matrix.hpp'; M4 = 'include/xme/math/matrices/matrix4x4.hpp'; MF = 'include/xme/math/matrices/functions.hpp'; MP = 'include/xme/math/matrices/perspective.hpp'; MT = 'include/xme/math/matrices/transformation.hpp'
Q = 'include/xme/math/quaternion.hpp'; SF = 'include/xme/math/scalars/functions.hpp'; TR = 'include/xme/math/scalars/trigonometry.hpp'; CO = 'include/xme/math/constants.hpp'
PL = 'include/xme/hal/linux/platform.hpp'; SL = 'include/xme/hal/shared_library.hpp'; SI = 'include/xme/hal/simd_detection.hpp'
M = lambda *a: [dict(name=n, where=w) for n, w in a]
exec(open(os.path.join(V, 'tools', 'props.py')).read())
def meta(id):
    f = glob.glob(f'{V}/harness/{id}_*.cpp')[0]; b = {}
    for l in open(f):
        q = re.match(r'//\s*@(\w+)\s*(.*)', l)
        if q: b.setdefault(q.group(1), []).append(q.group(2).strip())
    return os.path.basename(f), b
with open(f'{V}/properties.jsonl', 'w') as o:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
checks = []
for p in P:
    f, b = meta(p['id'])
    note = p['approach'] + ' Bounds: ' + '; '.join(b.get('bounds', ['-'])) + '.' + (' Assumes: ' + '; '.join(b['assume']) + '.' if 'assume' in b else '') + (' Configurations: ' + b['configs'][0] + '.' if 'configs' in b else '')
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} --tier quick', thorough_cmd=f'python3 check.py {p["id"]} --tier thorough', technique='symbolic execution of the compiled LLVM IR of the real code, Z3 decides every branch and assertion', level='model_checking', level_note=note))
man = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
json.dump(man, open(f'{V}/MANIFEST.json', 'w'), indent=1)
# the per-property part of DESIGN.md
d = open(f'{V}/DESIGN.md').read() if os.path.exists(f'{V}/DESIGN.md') else ''
if '<!-- BEGIN properties -->' in d:
    out = ['<!-- BEGIN properties -->']
    cost = json.load(open(f'{V}/tools/cost.json')) if os.path.exists(f'{V}/tools/cost.json') else {}
    for p in P:
        f, b = meta(p['id'])
        out.append(f'**{p["id"]} {p["title"]}.** {p["approach"]} *Bounds:* {"; ".join(b.get("bounds", ["-"]))}.' + (f' *Assumptions:* {"; ".join(b["assume"])}.' if 'assume' in b else '') + (f' *Configurations:* {b["configs"][0]}.' if 'configs' in b else '') + f' *Beyond the tests:* {p["why"]}' + (f' *Cost:* {cost[p["id"]]}.' if p['id'] in cost else '') + f' (`harness/{f}`)\n')
    out.append('**Not applicable.**\n')
    for p in NA: out.append(f'- {p["id"]} {p["title"]}: {p["reason"]}')
    out.append('<!-- END properties -->')
    d = re.sub(r'<!-- BEGIN properties -->.*<!-- END properties -->', lambda m: '\n'.join(out), d, flags=re.S)
    if os.path.exists(f'{V}/.build/seeded.json'):
        R = json.load(open(f'{V}/.build/seeded.json')); o2 = ['<!-- BEGIN seeded -->']; by = {}; missed = []
        for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
            i = os.path.basename(os.path.dirname(m)); j = json.load(open(m)); c = [k for k, v in R.get(i, {}).get('checks', {}).items() if v == 1]; by.setdefault(j['property'], []).append((i, j['what_it_breaks'], c))
            if not c: missed.append(i)
        o2.append(f'{sum(len(v) for v in by.values())} changes are kept in `seeded/`; ' + ('every one of them is caught by the check of its property (quick tier)' if not missed else 'not caught: ' + ', '.join(missed)) + '.\n')
        for k in sorted(by): o2.append(f'- {k}: ' + '; '.join(f'{i} ({w.rstrip(".")}' + ('' if c == [k] else ', caught by ' + ', '.join(c) if c else ', NOT CAUGHT') + ')' for i, w, c in by[k]) + '.')
        o2.append('<!-- END seeded -->'); d = re.sub(r'<!-- BEGIN seeded -->.*<!-- END seeded -->', lambda m: '\n'.join(o2), d, flags=re.S)
    open(f'{V}/DESIGN.md', 'w').write(d)
print(len(P), 'properties claimed,', len(NA), 'not applicable')
