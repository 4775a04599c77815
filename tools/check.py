#!/usr/bin/env python3
"""Decide one property: encode the real code, solve, replay, report.

usage: check.py ID [--tier quick|thorough] [--entry NAME] [--keep] [-v]

1. /verif/harness/ID.cpp (which includes the repository's own headers and sources from
   /repo's working tree) is compiled to LLVM bitcode and, in parallel, to a native binary.
2. every ENTRY in it is executed symbolically by /verif/build/symx: inputs are SMT
   variables, every feasible path inside the bounds is followed, every CHECK and every
   memory access is a query to Z3.
3. a counterexample is replayed on the native binary (the real code, compiled as the
   repository compiles it); it is reported only when it reproduces.
4. solver models of passing paths are replayed as well and their observations compared
   with the encoding (this validates the encoding against the implementation).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
JOBS = int(os.environ.get('SX_JOBS', '8'))
INC = [f'-I{REPO}', f'-I{REPO}/datas', f'-I{V}/harness']
BCFLAGS = ['-O1', '-emit-llvm', '-c', '-gline-tables-only', '-msse4', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-unroll-loops', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-w', '-ffp-contract=off',
           '-Wno-invalid-offsetof', '-include', f'{V}/rt/noext.h', '-fno-threadsafe-statics', '-D_GLIBCXX_GTHREAD_USE_WEAK=0']
NATFLAGS = ['-O1', '-msse4', '-w', '-DSX_NATIVE', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off', '-pthread', '-fno-strict-aliasing', '-fwrapv', '-fno-delete-null-pointer-checks']


def directives(src):
    d = {'flags': {}, 'bounds': [], 'cxx': [], 'std': 'c++14', 'outside': [], 'assume': [], 'uf': [], 'bccxx': [], 'timeout': {}}
    for ln in open(src):
        m = re.match(r'//!\s*(\w+)\s*(.*)', ln)
        if not m:
            continue
        k, r = m.group(1), m.group(2).strip()
        if k == 'bounds' or k == 'outside' or k == 'assume':
            d[k].append(r)
        elif k == 'flags':
            n, _, f = r.partition(' ')
            d['flags'][n] = f.split()
        elif k in ('cxx', 'bccxx'):
            d[k] += r.split()
        elif k == 'native':
            d['native'] = r
        elif k == 'std':
            d['std'] = r
    return d


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'


class Check:
    def __init__(s, pid, tier, entry, verbose, keep):
        s.id, s.tier, s.only, s.v = pid, tier, entry, verbose
        s.src = f'{V}/harness/{pid}.cpp'
        s.d = directives(s.src)
        s.t0 = time.time()
        os.makedirs(f'{V}/work', exist_ok=True)
        s.w = tempfile.mkdtemp(prefix=f'{pid}_', dir=f'{V}/work')
        s.keep = keep
        s.problems = []
        s.def_ = ['-DSX_THOROUGH'] if tier == 'thorough' else []
        s.nat = {}

    def bitcode(s):
        t = time.time()
        r = run(['clang++-18', f'-std={s.d["std"]}', *BCFLAGS, *s.d['cxx'], *s.d['bccxx'], *s.def_, *INC, s.src, '-o', f'{s.w}/h.bc'], 300)
        s.tbc = time.time() - t
        return r

    def native(s, kind):
        out = f'{s.w}/nat_{kind}'
        base = [f'-std={s.d["std"]}', *NATFLAGS, *s.d['cxx'], *s.def_, *INC, s.src, f'{V}/harness/native.cpp', '-o', out]
        if kind == 'gcc':
            cmd = [s.d.get('native', 'g++-9'), *base]
        elif kind == 'pattern':
            cmd = ['clang++-18', '-ftrivial-auto-var-init=pattern', *base]
        else:
            cmd = ['clang++-18', '-ftrivial-auto-var-init=zero', '-enable-trivial-auto-var-init-zero-knowing-it-will-be-removed-from-clang', *base]
            cmd = [c for c in cmd if not c.startswith('-enable-trivial')]
        rc, o, e = run(cmd, 400)
        s.nat[kind] = (out if rc == 0 else None, e)
        return rc, o, e

    def replay(s, kind, entry, inputs, name, fill=None):
        """returns (status, observations, text)"""
        f = f'{s.w}/{name}.in'
        with open(f, 'w') as fh:
            for n, h in inputs:
                fh.write(f'{n} {h}\n')
        if s.nat.get(kind, (None,))[0] is None:
            return 'nobin', [], s.nat.get(kind, (None, '?'))[1]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:alloc_dealloc_mismatch=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:max_malloc_fill_size=1048576' + (f':malloc_fill_byte={fill}' if fill is not None else '')
        d = tempfile.mkdtemp(prefix='cwd_', dir=s.w)
        try:
            p = subprocess.run([s.nat[kind][0], entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40, env=env, cwd=d, stdin=subprocess.DEVNULL)
            rc, o, e = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, o, e = -signal.SIGALRM, '', 'timeout'
        shutil.rmtree(d, ignore_errors=True)
        obs = re.findall(r'^OBS (.*) ([0-9A-F]+)$', o, re.M)
        if rc == 0 and 'SXOK' in o:
            return 'ok', obs, ''
        if rc == 10:
            return 'infeasible', obs, o
        if rc == 11 or rc == 12:
            return 'diverged', obs, o
        m = re.search(r'^SXFAIL (.*)$', o, re.M)
        if rc == 42 and m:
            return 'fail', obs, 'assertion ' + m.group(1)
        if rc == 99:
            m = re.search(r'ERROR: AddressSanitizer:? (.*)', e)
            return 'fail', obs, 'AddressSanitizer: ' + (m.group(1) if m else e[-300:])
        if rc == -signal.SIGALRM:
            return 'fail', obs, 'does not terminate (20 s)'
        return 'fail', obs, f'exit status {rc}: {(o + e)[-300:]}'

    def need(s, kind):
        if kind not in s.nat:
            s.native(kind)

    def main(s):
        try:
            return s.main2()
        finally:
            if not s.keep:
                for f in os.listdir(s.w):
                    p = f'{s.w}/{f}'
                    if not f.startswith('replay'):
                        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
                if not os.listdir(s.w):
                    os.rmdir(s.w)

    def main2(s):
        if not os.path.exists(f'{V}/build/symx') or not os.path.exists(f'{V}/build/rt.bc'):
            rc, o, e = run(['bash', f'{V}/tools/setup.sh'], 900)
            if rc:
                print('cannot build the engine:', o[-1000:], e[-3000:]); return 2
        ex = cf.ThreadPoolExecutor(JOBS)
        fb, fn = ex.submit(s.bitcode), ex.submit(s.native, 'gcc')
        rc, o, e = fb.result()
        if rc:
            print(f'{s.id}: the encoding does not compile:\n' + e[-6000:]); return 2
        _, o, _ = run(['llvm-nm-18', '--defined-only', '-p', f'{s.w}/h.bc'], 60)
        names = re.findall(r' T sxe_(\w+)$', o, re.M)
        names = [n for n in names if not (n.endswith('_thorough') and s.tier != 'thorough')]
        if s.only:
            names = [n for n in names if re.fullmatch(s.only, n)]
        known = []
        kf = f'{V}/known_findings.txt'
        if os.path.exists(kf):
            for ln in open(kf):
                m = re.match(r'finding: property=(\S+) entry=(\S+) label="([^"]*)" (.*)', ln.strip())
                if m and m.group(1) == s.id:
                    known.append((m.group(2), m.group(3), m.group(4)))
        found = []  # when an entry with a violation came back: the others get another minute
        budget = 800 if s.tier == 'quick' else 6 * 3600
        def one(n):
            fl = s.d['flags'].get('*', []) + s.d['flags'].get(n, [])
            left = max(20, budget - 120 - (time.time() - s.t0))
            to = left
            if '--timeout' in fl:
                i = fl.index('--timeout'); to = min(left, float(fl[i + 1]) * (1 if s.tier == 'quick' else 10)); fl = fl[:i] + fl[i + 2:]
            j = f'{s.w}/{n}.json'
            if found:
                return n, dict(stopped=True), ''
            mayfail = any(re.fullmatch(x[0], n) for x in known)
            cmd = [f'{V}/build/symx', f'{s.w}/h.bc', '--rt', f'{V}/build/rt.bc', '--entry', 'sxe_' + n, '--out', j, '--timeout', str(to), '--seed', os.environ.get('VERIF_SEED', '1'), *([] if mayfail else ['--grace', '40']), *fl]
            t1 = time.time()
            with open(j + '.err', 'w') as ef:
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL)
                while True:
                    try:
                        rc = p.wait(1); break
                    except subprocess.TimeoutExpired:
                        late = found and time.time() - found[0] > 60
                        if late or time.time() - t1 > to + 100:
                            p.kill(); p.wait()
                            if late: return n, dict(stopped=True), ''
                            rc = -999; break
            e = open(j + '.err').read()
            if rc or not os.path.exists(j):
                return n, None, f'engine status {rc}: {e[-800:]}'
            r = json.load(open(j))
            if not mayfail and any(v['kind'] in ('assert', 'hang') and not v['uninit'] for v in r['violations']):
                found.append(time.time())
            return n, r, e
        res = list(ex.map(one, names))
        rc, o, e = fn.result()
        if rc:
            print(f'{s.id}: the native replay does not compile:\n' + e[-6000:]); return 2
        viol, knownhit, samples = [], {}, []
        tot = dict(paths=0, forks=0, steps=0, queries=0, z3=0, solver_s=0.0, asserts=0, by_solver=0, maxq=0.0)
        funcs, labels, validated, per = set(), {}, 0, []
        for n, j, err in res:
            if j is None:
                s.problems.append(f'{n}: {err}'); continue
            if 'stopped' in j:
                s.problems.append(f'{n}: not decided, another entry has a violation'); continue
            tot['paths'] += j['paths'] + j['paths_killed']; tot['forks'] += j['forks']; tot['steps'] += j['steps']
            tot['queries'] += j['queries']; tot['z3'] += j['z3_calls']; tot['solver_s'] += j['solver_s']; tot['maxq'] = max(tot['maxq'], j['max_query_s'])
            tot['asserts'] += j['asserts_evaluated']; tot['by_solver'] += j['asserts_by_solver']
            for k, c in j['assert_hits'].items():
                labels[f'{n}: {k}'] = c
            for f in j['functions']:
                if f['file'].startswith(REPO) or not f['file'].startswith('/'):
                    funcs.add(f['name'] + ' @ ' + os.path.relpath(os.path.normpath(f['file']), REPO) if f['file'].startswith('/') else f['name'] + ' @ ' + f['file'])
            per.append(dict(entry=n, paths=j['paths'], steps=j['steps'], queries=j['queries'], solver_s=round(j['solver_s'], 2), wall_s=round(j['wall_s'], 2)))
            if s.v:
                print(f'  {n}: paths={j["paths"]}+{j["paths_killed"]} steps={j["steps"]} q={j["queries"]} z3={j["z3_calls"]} solver={j["solver_s"]:.1f}s wall={j["wall_s"]:.1f}s inc={j["incomplete"]} viol={[(v["kind"], v["label"]) for v in j["violations"]]}')
            hit = False
            for i, v in enumerate(j['violations']):
                if v['kind'] == 'hang' and sum(x[4].get('kind') == 'hang' for x in viol) >= 2:
                    continue # replaying each takes its time; two are enough
                st, txt, used = 'none', '', 'gcc'
                tries = [('gcc', None)] + ([('gcc', 0), ('gcc', 255), ('pattern', 165), ('zero', 0)] if v['uninit'] or v['kind'] == 'memory' else [])
                for kind, fill in tries:
                    s.need(kind)
                    st, _, txt = s.replay(kind, n, v['inputs'], f'replay_{n}_{i}', fill)
                    used = kind
                    if st == 'fail':
                        break
                what = f'{v["kind"]}: {v["label"]} at {v["where"]}'
                if st != 'fail':
                    s.problems.append(f'{n}: counterexample not reproduced on the real code ({st} {txt[:200]}): {what} inputs={v["inputs"]}')
                    continue
                k = [x for x in known if re.fullmatch(x[0], n) and (x[1] == v['label'] or (x[1] == '*'))]
                hit = True
                if k:
                    knownhit[k[0]] = (v, txt)
                    continue
                viol.append((n, i, what, txt, v))
            if not hit:
                if j['incomplete']:
                    s.problems.append(f'{n}: not fully explored: {j["incomplete"]}')
                if not n.startswith('known_') and (j['paths'] == 0 or j['asserts_evaluated'] == 0) and not j['violations']:
                    s.problems.append(f'{n}: vacuous: {j["paths"]} paths, {j["asserts_evaluated"]} assertions')
            for i, sm in enumerate(j['samples']):
                kind = 'gcc'
                if sm['uninit']:
                    continue
                st, obs, txt = s.replay(kind, n, sm['inputs'], f'replay_s_{n}_{i}')
                if st == 'fail':
                    if any(re.fullmatch(x[0], n) for x in known): continue
                    viol.append((n, f's_{n}_{i}'.replace(f's_{n}_', 's'), 'native run of a solved path fails', txt, sm)); os.rename(f'{s.w}/replay_s_{n}_{i}.in', f'{s.w}/replay_{n}_s{i}.in')
                    continue
                if st == 'infeasible' and '--real' in s.d['flags'].get('*', []) + s.d['flags'].get(n, []):
                    continue # the exact solution, once rounded, lies outside of the assumptions
                if st != 'ok':
                    s.problems.append(f'{n}: solved path diverges natively: {st} {txt[:300]}'); continue
                a, b = [tuple(x) for x in obs], [tuple(x) for x in sm['obs']]
                if [(x, int(y, 16)) for x, y in a] != [(x, int(y, 16)) for x, y in b]:
                    s.problems.append(f'{n}: encoding and native run disagree on observations: native {a[:8]} encoding {b[:8]} inputs={sm["inputs"]}'); continue
                validated += 1
                if len(samples) < 12:
                    samples.append(dict(entry=n, inputs=[f'{x}={y}' for x, y in sm['inputs']][:40], observations=[f'{x}={y}' for x, y in b][:20]))
                try: os.unlink(f'{s.w}/replay_s_{n}_{i}.in')
                except OSError: pass
        for k, (v, txt) in knownhit.items():
            print(f'KNOWN-FINDING: property={s.id} {k[2]} [{txt[:120]}]')
        for n, i, what, txt, v in viol[:6]:
            rp = f'{s.w}/replay_{n}_{i}'
            with open(rp + '.txt', 'w') as f:
                f.write(f'property {s.id}\nentry {n}\nviolation {what}\nnative run: {txt}\ninputs:\n' + ''.join(f'  {a} = {b}\n' for a, b in v['inputs']) +
                        f'\nreplay: bash {V}/tools/replay.sh {s.id} {n} {rp}.in\n')
            print(f'  {n}: {what}\n    native: {txt}\n    inputs: ' + ' '.join(f'{a}={b}' for a, b in v['inputs'])[:600])
            print(f'VIOLATION property={s.id} replay={rp}.txt')
        wall = time.time() - s.t0
        funcs_repo = sorted(x for x in funcs if '/verif' not in x and 'harness/' not in x)
        ev = dict(property=s.id, tier=s.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(wall, 2), violations=len(viol),
                  assumptions=s.d['assume'] + s.d['outside'],
                  coverage=dict(states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=validated, samples=samples or [dict(note='no completed path in this run')],
                                exhaustive=not s.problems, bounds=s.d['bounds'], outside_bounds=s.d['outside'], entries=per,
                                states_meaning='feasible symbolic paths, each covering every input that follows it', transitions_meaning='LLVM IR instructions executed symbolically',
                                functions_encoded=funcs_repo[:400], functions_encoded_count=len(funcs_repo), branch_forks=tot['forks'],
                                solver_queries=tot['queries'], z3_calls=tot['z3'], solver_time_s=round(tot['solver_s'], 3), max_query_s=round(tot['maxq'], 3),
                                assertions_evaluated=tot['asserts'], assertions_needing_solver=tot['by_solver'], assertion_labels=labels,
                                solver='Z3 (libz3 in the Python venv), QF_BV / QF_FPBV', encoding=f'LLVM 18 IR of {REPO} compiled by this run ({s.tbc:.1f} s)',
                                known_findings=[k[2] for k in knownhit], unresolved=s.problems))
        os.makedirs(f'{V}/evidence', exist_ok=True)
        if not s.only:
            json.dump(ev, open(f'{V}/evidence/{s.id}.json', 'w'), indent=1)
        for p in s.problems:
            print(f'{s.id}: {p}'[:1500])
        print(f'{s.id}: {len(names)} entries, {tot["paths"]} paths, {tot["asserts"]} assertions, {tot["queries"]} queries, {tot["solver_s"]:.1f}s solver, {validated} traces validated, {len(viol)} violations, {wall:.1f}s')
        if viol:
            return 1
        return 2 if s.problems else 0


ap = argparse.ArgumentParser()
ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true')
a = ap.parse_args()
sys.exit(Check(a.id, a.tier, a.entry, a.v, a.keep).main())
