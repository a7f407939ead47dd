#!/usr/bin/env python3
"""Decide one property of /repo's working tree by symbolic execution.

  check.py <property> [--tier quick|thorough] [--root /repo] [--only JOB] [--keep]

For every job of the property (jobs.py): compile the harness together with the current sources to LLVM IR, execute
it symbolically (engine/symx, Z3), replay sample paths natively (validation of the encoding) and replay every
counterexample natively under sanitizers. Exit 0: held; 1: VIOLATION line; 2: no answer.
"""
import argparse, concurrent.futures as cf, json, os, shutil, shlex, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J
CXX = '/usr/bin/clang++'
LINK = '/usr/bin/llvm-link-18'
INC = lambda root: ['-include', f'{HERE}/stubs/vf_pre.h', f'-I{HERE}/stubs', f'-I{HERE}/harness', f'-I{root}/src', f'-I{root}', f'-I{root}/otherExperiments']
IRFLAGS = ['-std=c++14', '-O1', '-fno-pic', '-fno-pie', '-w', '-gline-tables-only', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fsanitize=array-bounds,integer-divide-by-zero,return,unreachable', '-fsanitize-trap=all']

def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate()
        return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

def sources(job, root): return [f'{HERE}/harness/{job.harness}.cpp', *(f'{root}/src/{x}' for x in job.also)]
def pre(src): return [] if src.startswith(f'{HERE}/harness/') else ['-include', f'{HERE}/harness/common.h'] # what the real library headers include
def overlay(job, root, wd): # include flags of the job's copy of a source with other block sizes
    return [f'-I{wd}/{job.unit}.overlay', f'-I{root}/src/{os.path.dirname(job.reblock[0])}'] if job.reblock else []
def compile_ir(job, root, out):
    wd = os.path.dirname(out)
    if job.reblock:
        r = sh([sys.executable, f'{HERE}/tools/reblock.py', root, f'{wd}/{job.unit}.overlay', *job.reblock])
        if r[0] != 0: return 'skip', r[1], r[1] + r[2]
    srcs = sources(job, root); parts = [f'{out}.{k}' for k in range(len(srcs))] # one translation unit each, linked as in the project
    with cf.ThreadPoolExecutor(8) as ex:
        for r in list(ex.map(lambda x: sh([CXX, *IRFLAGS, *overlay(job, root, wd), *INC(root), *job.flags, *pre(x[0]), x[0], '-o', x[1]], timeout=600), zip(srcs, parts))):
            if r[0] != 0: return r
    r = sh([LINK, *parts, '-o', f'{out}.all'], timeout=600)
    return r if r[0] != 0 else sh([LINK, f'{out}.all', '--only-needed', support(wd), '-o', out], timeout=600)

_sup = threading.Lock()
def support(wd): # what the code takes from the binary C++ library, once per run
    b = f'{wd}/support.bc'
    with _sup:
        if not os.path.exists(b):
            r = sh([CXX, *IRFLAGS, '-include', f'{HERE}/stubs/vf_pre.h', f'{HERE}/support/rt.cpp', '-o', b], timeout=300)
            if r[0] != 0: raise RuntimeError(r[2])
    return b

SAN = {'asan': (['-fsanitize=address,alignment,array-bounds,integer-divide-by-zero,unreachable,return,null', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'], ['-fsanitize=address,undefined'], ['-DVF_ASAN']),
       'tsan': (['-fsanitize=thread'], ['-fsanitize=thread'], ['-DVF_TSAN']),
       'valgrind': ([], [], []),
       'msan': (['-fsanitize=memory', '-fsanitize-memory-track-origins'], ['-fsanitize=memory'], ['-DVF_MSAN'])}
_built, _blocks, _lk = {}, {}, threading.Lock()
def compile_native(job, root, wd, kind): # at most once per job and sanitizer
    with _lk: l = _blocks.setdefault((job.unit, kind), threading.Lock())
    with l:
        if (job.unit, kind) not in _built: _built[job.unit, kind] = _compile_native(job, root, wd, kind)
        return _built[job.unit, kind]
def _compile_native(job, root, wd, kind):
    f, l, d = SAN[kind]; b = f'{wd}/{job.unit}.{kind}'
    opt = [] if any(x.startswith('-O') for x in job.native) else ['-O1']
    srcs = sources(job, root); objs = [f'{b}.{k}.o' for k in range(len(srcs))]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in list(ex.map(lambda x: sh([CXX, '-std=c++14', '-w', '-g', '-DVF_NATIVE', *opt, *f, *overlay(job, root, wd), *INC(root), *job.flags, *job.native, *pre(x[0]), '-c', x[0], '-o', x[1]], timeout=600), zip(srcs, objs))):
            if r[0] != 0: return None, r[2]
    r = sh([CXX, '-std=c++14', '-w', '-O1', '-g', *d, '-c', f'{HERE}/native/vf_native.cpp', '-o', b + '.rt.o'], timeout=300)
    if r[0] != 0: return None, r[2]
    r = sh([CXX, *l, *objs, b + '.rt.o', '-o', b, '-lpthread'], timeout=300)
    return (b, '') if r[0] == 0 else (None, r[2])

def write_cex(path, vars_pairs, params):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write(f'P {k} {v}\n')
        for k, v in vars_pairs:
            f.write(f'{"F" if "x" in v or "." in v or "inf" in v or "nan" in v else "U"} {k} {v}\n')

class Pairs(list): pass
def load_viol(p):
    return json.load(open(p), object_pairs_hook=lambda x: Pairs(x))
def get(pairs, key, d=None):
    for k, v in pairs:
        if k == key: return v
    return d

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:detect_stack_use_after_return=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', UBSAN_OPTIONS='print_stacktrace=1')
VALGRIND = ['/usr/bin/valgrind', '-q', '--error-exitcode=43', '--exit-on-first-error=yes', '--undef-value-errors=no', '--leak-check=no']
def run_native(binary, cex, timeout):
    return sh([*(VALGRIND if binary.endswith('.valgrind') else []), binary], timeout=timeout, env=dict(ENV, VF_CEX=cex))

def replay(job, root, wd, kind, cex):
    """returns (confirmed, description, sanitizer)"""
    order = {'race': ['tsan', 'asan'], 'uninitialised': ['asan', 'msan'], 'memory': ['asan', 'valgrind']}.get(kind, ['asan'])
    notes = []
    for san in order:
        b, err = compile_native(job, root, wd, san)
        if not b: notes.append(f'{san}: native build failed: {err[-400:]}'); continue
        rc, o, e = run_native(b, cex, 60 if kind == 'nontermination' else 300)
        if rc == 'timeout':
            if kind == 'nontermination': return True, 'still running after 60 s natively', san
            notes.append(f'{san}: timeout'); continue
        if rc == 77: notes.append(f'{san}: inputs inconsistent'); continue
        if rc != 0:
            lines = [x for x in (o + '\n' + e).splitlines() if 'VF-FAIL' in x or 'ERROR:' in x or 'WARNING: ' in x or 'runtime error' in x or 'SUMMARY' in x or 'Invalid ' in x or 'Address 0x' in x]
            return True, ' | '.join(lines[:3]) or f'exit {rc}', san
        notes.append(f'{san}: ran without a failure')
    return False, '; '.join(notes), None

def known_findings(prop):
    out = []
    p = f'{HERE}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('open: '):
                d = dict(x.split('=', 1) for x in l[6:].strip().split(' ', 3) if '=' in x)
                if d.get('property') == prop: out.append((d.get('job'), d.get('match', ''), l[6:].strip()))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--root', default='/repo'); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--no-validate', action='store_true')
    a = ap.parse_args(); t0 = time.time(); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'; prop = a.property
    prop_def = J.PROPS[prop]; js = [j.at(tier) for j in prop_def.jobs if (not a.only or j.name == a.only)]; js = [j for j in js if j]; first = {}
    for j in js: j.unit = first.setdefault((j.harness, *j.flags, '|', *j.native, '|', *j.also, '|', *j.reblock), j.name) # jobs that share their binaries
    if not os.path.exists(f'{HERE}/engine/symx'):
        r = sh(['make', '-C', f'{HERE}/engine'], timeout=900)
        if r[0] != 0: print('engine build failed', r[2][-2000:]); return 2
    wd = tempfile.mkdtemp(prefix=f'vf_{prop}_'); rdir = f'{HERE}/replay/{prop}'; shutil.rmtree(rdir, ignore_errors=True)
    status = 0; msgs = []; jobs_out = []; tot = dict(paths=0, instructions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, symbolic_asserts=0, solver_s=0.0, infeasible=0, race_checked_accesses=0); funcs = set(); validated = 0; samples = []; nviol = 0
    known = known_findings(prop); shown = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            comp = {j.unit: ex.submit(compile_ir, j, a.root, f'{wd}/{j.unit}.bc') for j in js if j.unit == j.name}
            nat = {}
            for j in js:
                rc, o, e = comp[j.unit].result()
                if rc == 'skip': msgs.append(f'{j.name}: not run, the block sizes cannot be replaced: {o.strip()}'); continue
                if rc != 0:
                    if j.unit == j.name: msgs.append(f'{j.name}: the harness does not compile against this tree: {e[-1500:]}')
                    status = max(status, 2); continue
                if not a.no_validate: nat[j.name] = ex.submit(compile_native, j, a.root, wd, 'asan')
            for j in js:
                bc = f'{wd}/{j.unit}.bc'; od = f'{wd}/{j.name}.out'
                if not os.path.exists(bc): continue
                cmd = [f'{HERE}/engine/symx', bc, '--entry', 'vf_main', '--out', od, '--jobs', '8', '--deadline', str(j.deadline), '--instr-cap', str(j.cap), '--root', a.root, '--max-viol', '4', '--frac', '2']
                for k, v in j.params.items(): cmd += ['--param', f'{k}={v}']
                cmd += j.engine
                rc, o, e = sh(cmd, timeout=j.deadline + 120)
                if j.fallback and os.path.exists(od + '/error.txt') and 'only one witness of the data' in open(od + '/error.txt').read() and not any(x.startswith('viol.') for x in os.listdir(od)):
                    shutil.rmtree(od); rc, o, e = sh(cmd + [x for k, v in j.fallback.items() for x in ('--param', f'{k}={v}')], timeout=j.deadline + 120); j.params.update(j.fallback); j.bounds = j.fallback_bounds
                    msgs.append(f'{j.name}: the code converts times to integers; decided for: {j.bounds}')
                try: d = json.loads(o.strip().splitlines()[-1])
                except Exception:
                    msgs.append(f'{j.name}: engine gave no result ({rc}) {e[-800:]}'); status = max(status, 2); continue
                funcs.update(d.pop('functions', []))
                for k in tot: tot[k] += d.get(k, 0)
                err = ''
                if d.get('errors', 0) or rc == 'timeout':
                    err = open(od + '/error.txt').read()[:1500] if os.path.exists(od + '/error.txt') else e[-800:]
                # counterexamples
                vs = sorted(x for x in os.listdir(od) if x.startswith('viol.')); confirmed = False; unconf = []
                for v in vs:
                    vp = load_viol(f'{od}/{v}'); kind = get(vp, 'kind'); msg = get(vp, 'msg'); cex = f'{wd}/{j.name}.{v}.txt'
                    write_cex(cex, get(vp, 'vars', []), {k: x for k, x in j.params.items()})
                    ok, desc, san = replay(j, a.root, wd, kind, cex)
                    if not ok: unconf.append(f'{j.name}: counterexample [{kind}] {msg} at {get(vp, "loc")} was not reproduced natively ({desc})'); continue
                    kf = next((k for k in known if k[0] == j.name and k[1].replace('_', ' ') in msg), None)
                    if kf:
                        if kf not in shown: print(f'KNOWN-FINDING: {kf[2]}'); shown.append(kf)
                        confirmed = True; continue
                    os.makedirs(rdir, exist_ok=True); base = f'{rdir}/{j.name}.{nviol}'; nviol += 1
                    shutil.copy(cex, base + '.txt')
                    f, l, dd = SAN[san]
                    inc = ' '.join(x.replace(HERE, '"$V"').replace(a.root, '"$R"') for x in INC(a.root))
                    pre = f'python3 $V/tools/reblock.py $R $T/overlay {" ".join(j.reblock)} || exit 90\n' if j.reblock else ''; ov = f'-I$T/overlay -I$R/src/{os.path.dirname(j.reblock[0])} ' if j.reblock else ''
                    also = ''.join(f'{CXX} -std=c++14 -w -g -O1 -DVF_NATIVE {" ".join(f)} {ov}{inc} {" ".join(shlex.quote(x) for x in j.flags + j.native)} -include $V/harness/common.h -c $R/src/{x} -o $T/s{k}.o && ' for k, x in enumerate(j.also))
                    small = [(k, x) for k, x in get(vp, 'vars', []) if 'x' not in x][:20]
                    with open(base + '.sh', 'w') as g:
                        g.write(f'#!/bin/bash\n# {prop} {j.name}: [{kind}] {msg}\n# at {get(vp, "loc")}\n# native: {desc}\n# run from anywhere; exits non-zero when the violation reproduces\nV={HERE}; R=${{1:-{a.root}}}; T=$(mktemp -d)\n{pre}'
                                f'{CXX} -std=c++14 -w -g -O1 -DVF_NATIVE {" ".join(f)} {ov}{inc} {" ".join(shlex.quote(x) for x in j.flags + j.native)} -c $V/harness/{j.harness}.cpp -o $T/h.o && {also}{CXX} -std=c++14 -w -O1 -g {" ".join(dd)} -c $V/native/vf_native.cpp -o $T/n.o && {CXX} {" ".join(l)} $T/*.o -o $T/r -lpthread\n'
                                f'export ASAN_OPTIONS={ENV["ASAN_OPTIONS"]} TSAN_OPTIONS={ENV["TSAN_OPTIONS"]}\nVF_CEX={base}.txt VF_VERBOSE=1 timeout 300 {" ".join(VALGRIND) if san == "valgrind" else ""} $T/r; rc=$?; rm -rf "$T"; exit $rc\n')
                    os.chmod(base + '.sh', 0o755)
                    print(f'{j.name}: [{kind}] {msg} at {get(vp, "loc")}; inputs {small}; native replay ({san}): {desc}')
                    print(f'VIOLATION property={prop} replay={base}.sh'); sys.stdout.flush()
                    confirmed = True; status = 1
                    break
                if unconf and not confirmed:
                    msgs += unconf[:2]; status = max(status, 2) if status != 1 else 1
                if err and not confirmed:
                    msgs.append(f'{j.name}: {err}'); status = 1 if status == 1 else 2
                # vacuity and validation
                val = 0; bad = None
                if not vs and not err:
                    miss = [r for r in j.reach if not d.get('reach', {}).get(str(r))]
                    hard = [r for r in miss if r < 100] # cases of the input; from 100 on: cases that depend on how the code works
                    if miss: msgs.append(f'{j.name}: {"vacuous" if hard else "note"}, cases {miss} were not reached')
                    if hard: status = 1 if status == 1 else 2
                    if d.get('paths', 0) == 0: msgs.append(f'{j.name}: no path was explored'); status = 1 if status == 1 else 2
                    if j.name in nat:
                        b, er = nat[j.name].result()
                        if not b: msgs.append(f'{j.name}: native build failed {er[-800:]}'); status = 1 if status == 1 else 2
                        else:
                            ss = sorted(x for x in os.listdir(od) if x.startswith('sample.'))
                            def one(s):
                                sp = load_viol(f'{od}/{s}'); cex = f'{wd}/{j.name}.{s}.txt'; write_cex(cex, get(sp, 'vars', []), j.params); return s, sp, run_native(b, cex, 300)
                            for s, sp, (rc2, o2, e2) in ex.map(one, ss):
                                if rc2 == 0 and 'VF-OK' in o2: val += 1
                                else: bad = f'{j.name}: native run of sample path disagrees with the symbolic execution: rc={rc2} {(o2 + e2)[-600:]}'
                                if len(samples) < 24: samples.append({'job': j.name, 'instructions': get(sp, 'instructions'), 'path_condition': list(get(sp, 'path_condition', []))[:12], 'inputs': {k: v for k, v in list(get(sp, 'vars', []))[:16]}})
                            if bad: msgs.append(bad); status = 1 if status == 1 else 2
                validated += val
                jobs_out.append({'job': j.name, 'harness': f'harness/{j.harness}.cpp', 'flags': ' '.join(j.flags), 'bounds': {**j.params}, 'bounds_text': j.bounds, 'result': {k: d.get(k) for k in ('paths', 'infeasible', 'forks', 'instructions', 'max_path_instructions', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'symbolic_asserts', 'violations', 'errors', 'race_checked_accesses', 'wall_s', 'reach')}, 'native_validations': val})
                if status == 1 and tier == 'quick': break
    finally:
        if not a.keep: shutil.rmtree(wd, ignore_errors=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
          'assumptions': prop_def.assumptions + J.COMMON_ASSUMPTIONS,
          'coverage': {'states': tot['paths'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no complete path on this run'}],
                       'explanation': 'states: complete symbolic paths (each covers every input satisfying its path condition); transitions: IR instructions executed symbolically; traces_validated_against_impl: sample paths whose model was run natively under ASan/UBSan with the same outcome',
                       'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2), 'assertions_evaluated': tot['asserts'], 'assertions_over_symbolic_terms': tot['symbolic_asserts'], 'race_checked_accesses': tot['race_checked_accesses'], 'infeasible_paths': tot['infeasible'],
                       'functions_encoded': sorted(x.replace(a.root + '/', '') for x in funcs), 'jobs': jobs_out, 'outcome': {0: 'held within the bounds', 1: 'violated', 2: 'no answer'}[status], 'messages': msgs}}
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    for m in msgs: print(m)
    print(f'{prop} [{tier}] {ev["coverage"]["outcome"]}: {tot["paths"]} paths, {tot["instructions"]} instructions, {tot["queries"]} queries ({tot["solver_s"]:.1f} s), {tot["symbolic_asserts"]} symbolic assertions, {validated} native validations, {ev["wall_s"]} s')
    return status
try: rc = main()
except Exception:
    import traceback; traceback.print_exc(); rc = 2
sys.exit(rc)
