#!/usr/bin/env python3
"""mkseed.py SPEC.py [names...]: turns a table of planted bugs into /verif/seeded/<id>/ after confirming each one.
Needs a clean /repo; applies each change there for the confirmation and undoes it."""
import json, os, subprocess, sys, shutil
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd /repo; 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -msse4 -w -fpermissive -include limits -include cstdint -I. -Idatas %s "$d/demo.cpp" -o "$t/demo" -pthread || exit 99
cd "$t" && timeout 60 ./demo
'''
def tests():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    try: o = json.load(open('/tmp/seedtest.json'))['passed']
    except Exception: return 'no tests'
    m = [x for x in b if x not in o]
    return m[:3]
ns = {}; exec(open(sys.argv[1]).read(), ns); S = ns['S']; only = sys.argv[2:]
assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'repo not clean'
for s in S:
    if only and s['id'] not in only: continue
    d = f'{V}/seeded/{s["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok = True
    try:
        for f, old, new in s['edits']:
            t = open(f'{R}/{f}').read()
            assert t.count(old) == 1, f'{s["id"]}: {t.count(old)} matches in {f}'
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        open(f'{d}/demo.cpp', 'w').write(s['demo'])
        open(f'{d}/demo.sh', 'w').write(DEMO % s.get('cxx', '')); os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        tm = tests() if b.returncode == 0 else 'build failed'
        if tm: ok = False; print(s['id'], 'TESTS', tm, b.stdout[-500:] if b.returncode else '')
        r = sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode in (0, 99): ok = False; print(s['id'], 'DEMO with patch:', r.returncode, r.stdout[-300:], r.stderr[-500:])
        c = sh(f'python3 {V}/tools/check.py {s["property"]}', cwd=V)
        caught = c.returncode == 1 and f'VIOLATION property={s["property"]}' in c.stdout
    except AssertionError as e:
        print(e); ok = False; caught = False
    finally:
        sh(f'git -C {R} checkout -- .')
    r = sh(f'bash {d}/demo.sh', cwd=R) if os.path.exists(d + '/demo.sh') else None
    if r is None or r.returncode: ok = False; print(s['id'], 'DEMO without patch:', r and (r.returncode, r.stdout[-300:], r.stderr[-800:]))
    print(s['id'], 'KEPT' if ok else 'DROPPED', 'caught' if caught else 'MISSED', flush=True)
    if not ok: shutil.rmtree(d)
sh('bash /opt/vp/build.sh')
