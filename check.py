#!/usr/bin/env python3
"""Runs the solver-based checks.  check.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]
   check.py --replay FILE     replays a recorded counterexample against the real build
The bitcode the engine interprets is regenerated from /repo's working tree on every run."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time, threading
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import registry
NCPU = os.cpu_count() or 8
INC = ['-I' + R + '/include', '-I' + R + '/WBMatrix/include', '-I' + R + '/src', '-I' + V + '/harness']
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode: print('ERROR: ' + ' '.join(cmd) + '\n' + p.stdout[-4000:]); raise SystemExit(2)
    return p
def sources():
    dirs = re.findall(r'^\s*aux_source_directory\s*\(\s*(\S+)', open(R + '/CMakeLists.txt').read(), re.M | re.I)
    fs = [f for d in dict.fromkeys(dirs) for f in sorted(glob.glob(f'{R}/{d}/*.c'))]
    fs += [R + '/' + m for m in re.findall(r'add_library\s*\(\s*\S+(?:\s+SHARED)?[^)]*?\s(src/\S+\.c)', open(R + '/CMakeLists.txt').read()) if R + '/' + m not in fs]
    return fs
def pmap(f, xs):
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(f, xs))
class Build:
    def __init__(self, scratch): self.d = scratch; self.nat = {}; self.lock = threading.Lock()
    CL = ['clang', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-fcommon', '-fno-pic', '-fno-pie', '-fopenmp', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=return-type', '-I' + V + '/models/include', '-emit-llvm', '-c']
    def lib(self):
        fs = sources(); outs = [f'{self.d}/l{i}.bc' for i in range(len(fs))]
        pmap(lambda fo: must(self.CL + ['-std=c99'] + INC + [fo[0], '-o', fo[1]]), list(zip(fs, outs)))
        must(['llvm-link-18', '-o', self.d + '/lib.bc'] + outs); self.srcs = fs
    def model(self, names):
        def one(n):
            o = f'{self.d}/m_{n}.bc'
            must(self.CL + ['-fno-builtin'] + INC + [f'{V}/models/{n}.c', '-o', o]); return o
        return pmap(one, names)
    def harness(self, f):
        o = f'{self.d}/h_{f}.bc'
        if f.endswith('_udf'): must(['clang++'] + self.CL[1:] + INC + ['-I/usr/include/mysql', f'{V}/harness/{f}.cpp', '-o', o])
        else: must(self.CL + INC + [f'{V}/harness/{f}.c', '-o', o])
        return o
    def link(self, f, models):
        o = f'{self.d}/x_{f}.bc'; must(['llvm-link-18', '--only-needed', '-o', o, self.harness(f), self.d + '/lib.bc'] + [f'{self.d}/m_{m}.bc' for m in models]); return o
    WRAP = '-Wl,' + ','.join('--wrap=' + s for s in 'fopen fread fwrite fclose fflush ferror srand rand time malloc calloc realloc free'.split())
    VAR = {'O3': ('gcc', ['-O3']), 'pattern': ('clang', ['-O1', '-ftrivial-auto-var-init=pattern']), 'zero': ('clang', ['-O1', '-ftrivial-auto-var-init=zero']),
           'asan': ('clang', ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']), 'tsan': ('clang', ['-O1', '-g', '-fsanitize=thread']), 'kmp': ('clang', ['-O1', '-g']), 'O1g': ('gcc', ['-O1', '-g'])}
    def native(self, var, f, entry):
        with self.lock:
            cc, fl = self.VAR[var]; d = f'{self.d}/n_{var}'; omp = ['-fopenmp'] if cc == 'gcc' else []
            if var in ('tsan', 'kmp'): omp = ['-fopenmp', '-I' + V + '/models/include']
            elif cc == 'clang': omp = ['-I' + V + '/models/include']          # confirmation of sequential behaviour: pragmas ignored
            if var not in self.nat:
                os.makedirs(d, exist_ok=True); fs = sources()
                big = lambda f: ['-O0'] if os.path.getsize(f) > 400000 else []
                pmap(lambda i: must([cc] + fl + big(fs[i]) + omp + ['-fcommon', '-std=c99', '-w', '-c'] + INC + [fs[i], '-o', f'{d}/l{i}.o']), range(len(fs)))
                if os.path.exists(d + '/lib.a'): os.unlink(d + '/lib.a')
                must(['ar', 'rcs', d + '/lib.a'] + [f'{d}/l{i}.o' for i in range(len(fs))]); self.nat[var] = set()
            exe = f'{d}/{f}.{entry}'
            if (f, entry) not in self.nat[var]:
                extra = ['-DVERIF_KMPRT', V + '/replay/kmp.c', '-lpthread'] if var in ('tsan', 'kmp') else []
                if f.endswith('_udf'):
                    must([cc.replace('gcc', 'g++').replace('clang', 'clang++')] + fl + ['-w', '-c'] + INC + ['-I/usr/include/mysql', f'{V}/harness/{f}.cpp', '-o', exe + '.h.o'])
                    src = [exe + '.h.o', V + '/replay/replay.c']; extra += ['-lstdc++']
                else: src = [f'{V}/harness/{f}.c', V + '/replay/replay.c']
                must([cc] + fl + (omp if var not in ('tsan', 'kmp') else ['-I' + V + '/models/include']) + ['-fcommon', '-w', f'-DHARNESS={entry}', self.WRAP] + ['-Wl,--wrap=' + x for x in sorted(set(re.findall(r'\b__wrap_(\w+)\(', open(f'{V}/harness/{f}.c').read() if not f.endswith('_udf') else '')))] + INC + src + ['-o', exe, d + '/lib.a', '-lcrypto', '-lm'] + (['-lgomp'] if cc == 'clang' and var not in ('tsan', 'kmp') else []) + extra)
                self.nat[var].add((f, entry))
            return exe
    def play(self, var, f, entry, rfile, env=None, timeout=120):
        exe = self.native(var, f, entry); w = tempfile.mkdtemp(dir=self.d)
        e = dict(os.environ, VERIF_REPLAY=rfile, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=44', TSAN_OPTIONS='exitcode=45 report_bugs=1'); e.update(env or {})
        cmd = [exe]
        if var == 'O1g': cmd = ['valgrind', '-q', '--error-exitcode=46', '--leak-check=no', exe]
        if var == 'tsan': cmd = ['setarch', '-R', exe]
        if (env or {}).get('VERIF_HG'): cmd = ['valgrind', '-q', '--tool=helgrind', '--error-exitcode=45', exe]
        try: p = run(cmd, env=e, cwd=w, timeout=timeout); rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired: rc, out = 'timeout', ''
        shutil.rmtree(w, ignore_errors=True); return rc, out
def replay_file(path, prop, job, v):
    with open(path, 'w') as f:
        f.write(f'# property={prop} harness={job["file"]} entry={job["entry"]} kind={v.get("kind","")} msg={v.get("msg","")} loc={v.get("loc","")}\n# stack {v.get("stack","")}\n')
        for k, x in job.get('params', {}).items(): f.write(f'P {k} {x}\n')
        for n, x in ((n.replace(' ', '_'), x) for n, x in v['vars']): f.write(f'C {n} {x[1:]}\n' if x.startswith('#') else f'V {n} {x}\n'); 
        for i, a, b in v['ufs']: f.write(f'U {i} {a} {b}\n')
def confirm(b, job, rfile, kind):
    """replays a counterexample against natively built real code; returns a description of how it shows, or None"""
    f, e = job['file'], job['entry']; tries = [('O3', {}), ('O3', {'MALLOC_PERTURB_': '85'}), ('O3', {'MALLOC_PERTURB_': '1'}), ('pattern', {'MALLOC_PERTURB_': '170'}), ('zero', {'MALLOC_PERTURB_': '254'}), ('asan', {}), ('O1g', {})]
    if kind == 'race': tries = [('tsan', {}), ('kmp', {'VERIF_HG': '1'})] + tries
    if job.get('omp'): tries = [('kmp', {'VERIF_KMP': 'seq'})] + tries + [('tsan', {}), ('kmp', {'VERIF_HG': '1'})]
    if kind == 'memory': tries = [('asan', {})] + tries
    for var, env in tries:
        rc, out = b.play(var, f, e, rfile, env)
        m = re.search(r'REPLAY-VIOLATION (.*)', out)
        if m: return f'{var} {env}: {m.group(1)}'
        m = re.search(r'ERROR: AddressSanitizer: (.*)', out)
        if m: return f'{var}: {m.group(0)}'
        if rc == 45: return f'{var}: data race reported by ' + ('helgrind' if env else 'ThreadSanitizer')
        if rc == 46: return f'{var}: valgrind ' + (re.search(r'==\d+== (.*)', out) or [0, out[:200]])[1]
        if isinstance(rc, int) and rc < 0: return f'{var}: killed by signal {-rc}'
        if rc == 'timeout': return f'{var}: does not terminate'
    return None
def lim():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
STOP = threading.Event()
def engine(bc, job, scratch, seed, tmo, verbose, maxv):
    out = f'{scratch}/{job["name"]}.json'; t = f'{scratch}/t_{job["name"]}'; os.makedirs(t, exist_ok=True)
    cmd = [V + '/build/llsym', bc, '-e', job['entry'], '-o', out, '-t', str(tmo), '-q', str(job.get('qt', 120)), '-s', str(seed), '-T', t, '-W', str(job.get('witness', 2)), '-V', str(maxv)]
    for k, x in job.get('params', {}).items(): cmd += ['-p', f'{k}={x}']
    if verbose: cmd.append('-v'); print(' '.join(cmd), file=sys.stderr)
    t0 = time.time()
    try:
        with open(out + '.err', 'w') as ef: p = subprocess.Popen(cmd, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else ef, preexec_fn=lim)
        while p.poll() is None:
            if STOP.is_set() or time.time() - t0 > tmo + 60: p.kill(); p.wait(); break
            time.sleep(0.05)
        if os.path.exists(out): return json.load(open(out))
        if STOP.is_set(): return {'status': 'skipped', 'wall_s': time.time() - t0}
        return {'status': 'incomplete', 'incomplete': [f'engine ended with {p.returncode}: ' + open(out + '.err').read()[-300:]], 'wall_s': time.time() - t0}
    except ValueError: return {'status': 'skipped' if STOP.is_set() else 'incomplete', 'incomplete': ['engine output truncated'], 'wall_s': time.time() - t0}
def known():
    r = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'KNOWN property=(\S+) match="(.*?)" (.*)', l)
        if m: r.append(m.groups())
    return r
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--job'); ap.add_argument('--replay'); ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        if a.replay:
            h = open(a.replay).readline(); g = lambda k: re.search(k + r'=(\S*)', h).group(1); b = Build(scratch); r = confirm(b, {'file': g('harness'), 'entry': g('entry')}, os.path.abspath(a.replay), g('kind')); print('REPRODUCED ' + r if r else 'not reproduced'); return 1 if r else 0
        return check(a, t0, seed, scratch)
    finally:
        if a.keep: print(scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
def check(a, t0, seed, scratch):
    P = registry.PROPS[a.prop]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'; budget = 600 if tier == 'quick' else 3 * 3600
    jobs = []
    for j in P['jobs']:
        if j.get('tier', 'quick') == 'thorough' and tier == 'quick': continue
        if j.get('tier') == 'quickonly' and tier != 'quick': continue
        if a.job and not re.fullmatch(a.job, j['name']): continue
        jobs.append(j)
    if not os.path.exists(V + '/build/llsym'): must(['bash', V + '/engine/build.sh'])
    b = Build(scratch); b.lib(); models = ['libc', 'bn', 'aes']; b.model(models); bcs = {}
    fset = list(dict.fromkeys(j['file'] for j in jobs)); 
    for f, o in zip(fset, pmap(lambda f: b.link(f, models), fset)): bcs[f] = o
    tb = time.time() - t0; res = {}
    KF = [k for k in known() if k[0] == a.prop]; confirmed = {}; rlock = threading.Lock(); os.makedirs(V + '/build/replays', exist_ok=True)
    def rpath(j, v): return f'{V}/build/replays/{a.prop}-{j["name"]}-{hashlib.sha1((v["kind"]+v["msg"]+v["loc"]).encode()).hexdigest()[:8]}.txt'
    def conf(j, v):
        rf = rpath(j, v)
        with rlock:
            if rf not in confirmed: replay_file(rf, a.prop, j, v); confirmed[rf] = confirm(b, j, rf, v['kind'])
        return rf, confirmed[rf]
    # heavy jobs first; a job may declare the memory weight it needs (in cores)
    order = sorted(jobs, key=lambda j: -j.get('cost', 1))
    def work(j):
        left = t0 + budget - time.time(); tmo = max(5, min(j.get('timeout', 420 if tier == 'quick' else 7200), left))
        if STOP.is_set(): res[j['name']] = {'status': 'skipped'}; return
        r = engine(bcs[j['file']], j, scratch, seed, tmo, a.v, 6 if KF else 2); res[j['name']] = r
        # a violation that the real build shows decides the property: the remaining jobs are not needed
        for v in r.get('violations', []):
            if not STOP.is_set() and not v['msg'].startswith('model limit') and not any(k[1] == v['msg'] for k in KF) and conf(j, v)[1]: STOP.set()
        if a.v or sys.stdout.isatty() or os.environ.get('VERIF_LOG'): print(f'  {j["name"]}: {r.get("status")} paths={r.get("paths")} asserts={r.get("asserts")} smt={r.get("asserts_smt")} q={r.get("queries")} ext={r.get("q_external")} solver={r.get("solver_s",0):.1f}s wall={r.get("wall_s",0):.1f}s viol={len(r.get("violations",[]))} {r.get("incomplete") or ""}', flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_J', NCPU))) as ex: list(ex.map(work, order))
    viol, problems, kn, validated, samples = [], [], [], 0, []; os.makedirs(V + '/evidence', exist_ok=True)
    for j in jobs:
        r = res[j['name']]
        for i, v in enumerate(r.get('violations', [])):
            if v['msg'].startswith('model limit'): problems.append(f'{j["name"]}: {v["msg"]} at {v["loc"]}'); continue
            k = next((k for k in KF if k[1] == v['msg']), None)
            if k: kn.append((k, conf(j, v)[1])); continue
            if len(viol) >= 2 or (STOP.is_set() and rpath(j, v) not in confirmed): continue
            rf, c = conf(j, v)
            if c: viol.append((j, v, rf, c))
            else: problems.append(f'{j["name"]}: counterexample not reproduced natively: {v["kind"]} {v["msg"]} at {v["loc"]} ({rf})')
        if r.get('status') == 'incomplete': problems.append(f'{j["name"]}: ' + '; '.join(r.get('incomplete', [])[:3]))
        miss = [l for l in j.get('reach', ['end']) if l not in r.get('reach', [])]
        if miss and r.get('status') == 'ok' and not r.get('violations'): problems.append(f'{j["name"]}: vacuous, never reached {miss}')
        if r.get('status') == 'ok' and not viol:
            for i, w in enumerate(r.get('witnesses', [])[:j.get('witness', 2)]):
                rf = f'{scratch}/w_{j["name"]}_{i}.txt'; replay_file(rf, a.prop, j, w); rc, out = b.play('O3', j['file'], j['entry'], rf)
                m = re.search(r'REPLAY-VIOLATION (.*)', out)
                if rc == 0 and 'REPLAY-OK' in out: validated += 1
                elif m and any(k[1] == m.group(1) for k in KF): validated += 1
                elif m:
                    p = f'{V}/build/replays/{a.prop}-{j["name"]}-w{i}.txt'; shutil.copy(rf, p); v = {'kind': 'assert', 'msg': m.group(1), 'loc': 'native execution of a path witness', 'stack': ''}; viol.append((j, v, p, 'O3: ' + m.group(1)))
                else: problems.append(f'{j["name"]}: witness {i} natively: rc={rc} {out[-200:]}')
                if len(samples) < 6: samples.append({'job': j['name'], 'witness': [[n, x[:96]] for n, x in w['vars']][:10]})
    S = lambda k: sum(r.get(k, 0) or 0 for r in res.values()); fn = {}
    for r in res.values():
        for n, (c, ic, fl) in r.get('functions', {}).items():
            if fl.startswith(R + '/') or fl.startswith(R): x = fn.setdefault(n, [0, 0, os.path.relpath(fl, R)]); x[0] += c; x[1] += ic
    seen = set()
    for k, c in kn:
        if k not in seen: seen.add(k); print(f'KNOWN-FINDING: property={a.prop} {k[2]}')
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'assumptions': P.get('assumptions', []) + registry.COMMON_ASSUMPTIONS,
          'coverage': {'states': S('paths') + S('forks') + S('merges'), 'transitions': S('instrs'), 'traces_validated_against_impl': validated, 'samples': samples,
            'explanation': 'Bounded symbolic execution of the LLVM IR compiled from /repo in this run; states = symbolic states (path ends, forks, merges), transitions = IR instructions executed symbolically, traces_validated = path witnesses from the solver re-run against the natively built library.',
            'bounds': P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'], 'outside_bounds': P.get('outside', ''), 'paths': S('paths'), 'assertions_checked': S('asserts'), 'assertions_closed_by_rewriting': S('asserts_normal_form'), 'assertions_closed_by_smt': S('asserts_smt'), 'memory_accesses_checked': S('mem_checks'),
            'queries': {'total': S('queries'), 'sat': S('q_sat'), 'unsat': S('q_unsat'), 'unknown': S('q_unknown'), 'to_external_portfolio': S('q_external')}, 'solver_s': round(S('solver_s'), 2), 'build_s': round(tb, 2),
            'functions_encoded': {n: {'calls': x[0], 'ir_instructions': x[1], 'file': x[2]} for n, x in sorted(fn.items())},
            'jobs': {j['name']: {'status': res[j['name']].get('status'), 'paths': res[j['name']].get('paths'), 'bounds': j.get('bounds', ''), 'params': j.get('params', {}), 'wall_s': round(res[j['name']].get('wall_s', 0), 2), 'solver_s': round(res[j['name']].get('solver_s', 0) or 0, 2), 'assertions': res[j['name']].get('assert_kinds', {})} for j in jobs},
            'known_findings': [f'{k[1]}: {c}' for k, c in kn], 'undecided': problems}}
    json.dump(ev, open(f'{V}/evidence/{a.prop}.json', 'w'), indent=1)
    for p in problems: print('UNDECIDED ' + p)
    for j, v, rf, c in viol: print(f'  {j["name"]}: {v["kind"]}: {v["msg"]} at {v["loc"]}\n  confirmed natively: {c}'); print(f'VIOLATION property={a.prop} replay={rf}')
    if viol: return 1
    if problems: return 2
    print(f'OK property={a.prop} tier={tier} jobs={len(jobs)} paths={S("paths")} assertions={S("asserts")} queries={S("queries")} solver={S("solver_s"):.1f}s wall={time.time()-t0:.1f}s'); return 0
if __name__ == '__main__': sys.exit(main())
