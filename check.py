#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation with fault injection.

  check.py C01 --tier quick|thorough     run the simulation, write evidence/C01.json, exit 0/1
  check.py --replay replays/F.json       re-execute one recorded (minimised) schedule and fault trace
  check.py --build                       only build (setup)
"""
import argparse, collections, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TEDS_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, '.build')
CFLAGS = ['-fPIC', '-O1', '-g', '-fsanitize=address', '--param', 'asan-stack=0', '-fno-omit-frame-pointer', '-w', '-DCOMPILE_DL_TEDS=1', '-DHAVE_TEDS=1']
# runs in the quick tier (about 60-100 s on 8 cores) and the wall-clock caps
RUNS = json.load(open(os.path.join(SIM, 'runs.json')))
CAP = {'quick': 300, 'thorough': 3000}
JOBS = min(8, os.cpu_count() or 1)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    """the .c files the extension's own build compiles, plus every header"""
    m4 = open(os.path.join(REPO, 'config.m4'), errors='replace').read()
    m4 = '\n'.join(l for l in m4.splitlines() if not l.strip().startswith('dnl'))
    cs = sorted({f for f in re.findall(r'[\w./-]+\.c\b', m4) if os.path.isfile(os.path.join(REPO, f))})
    if not cs:
        cs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, 'teds*.c')))
    hs = sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, '**', '*.h'), recursive=True) if '/.' not in f and '/tests/' not in f)
    return cs, hs

def build():
    cs, hs = sources()
    inc = sh(['php-config8.3', '--includes']).stdout.split()
    h = hashlib.sha256()
    for f in [os.path.join(REPO, x) for x in cs + hs] + sorted(glob.glob(os.path.join(SIM, 'simx', '*.c'))):
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(repr((CFLAGS, inc)).encode())
    out = os.path.join(BUILD, h.hexdigest()[:16])
    if os.path.isfile(os.path.join(out, 'OK')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix='tmp.')
    # config.h exists only after configure and is not part of the source; the build defines what it needs itself
    def cc(f):
        return sh(['gcc', '-c', *CFLAGS, *inc, '-I' + REPO, os.path.join(REPO, f), '-o', os.path.join(tmp, f.replace('/', '_')[:-2] + '.o')])
    with ThreadPoolExecutor(JOBS) as ex:
        for f, r in zip(cs, ex.map(cc, cs)):
            if r.returncode:
                shutil.rmtree(tmp); sys.stderr.write(r.stdout); sys.exit(f'build of {f} failed')
    for cmd in ([['gcc', '-shared', '-fsanitize=address', *[os.path.join(tmp, f.replace('/', '_')[:-2] + '.o') for f in cs], '-o', tmp + '/teds.so'],
                 ['gcc', '-shared', '-fPIC', '-O1', *inc, SIM + '/simx/simx.c', '-o', tmp + '/simx.so'],
                 ['gcc', '-shared', '-fPIC', '-O1', SIM + '/simx/shim.c', '-o', tmp + '/shim.so', '-ldl']]):
        r = sh(cmd)
        if r.returncode:
            shutil.rmtree(tmp); sys.stderr.write(r.stdout); sys.exit('build failed: ' + ' '.join(cmd))
    for f in glob.glob(tmp + '/*.o'): os.unlink(f)
    open(tmp + '/OK', 'w').close()
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    old = sorted((d for d in glob.glob(BUILD + '/*') if d != out), key=os.path.getmtime)
    for d in old[:-3]: shutil.rmtree(d, ignore_errors=True)
    return out

def libasan():
    return sh(['gcc', '-print-file-name=libasan.so']).stdout.strip()

class Env:
    def __init__(self, b):
        self.b = b; self.asan = os.path.realpath(libasan()); self.wds = []
    def wd(self):
        d = tempfile.mkdtemp(prefix='vsim.'); self.wds.append(d); return d
    def spawn(self, wd, *args, **kw):
        env = dict(os.environ, ZEND_DONT_UNLOAD_MODULES='1', USE_ZEND_ALLOC='0', LC_ALL='C', TZ='UTC',
                   ASAN_OPTIONS=f'detect_leaks=0:exitcode=99:verify_asan_link_order=0:quarantine_size_mb=4:malloc_context_size=0:allocator_may_return_null=1:log_path={wd}/asan',
                   LD_PRELOAD=f'{self.b}/shim.so:{self.asan}')
        cmd = ['php8.3', '-n', '-d', 'extension=posix', '-d', 'zend.exception_ignore_args=1', '-d', f'extension={self.b}/simx.so', '-d', f'extension={self.b}/teds.so', SIM + '/php/worker.php', *map(str, args)]
        return subprocess.Popen(cmd, env=env, stderr=subprocess.DEVNULL, start_new_session=True, cwd=wd, **kw)
    def close(self):
        for d in self.wds: shutil.rmtree(d, ignore_errors=True)

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()

class Server:
    """executes plans one at a time, each in a process of its own"""
    def __init__(self, env):
        self.env = env; self.wd = env.wd(); self.p = None; self.runs = 0
    def run(self, plan=None, prop=None, seed=None, trace=False, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.p = self.env.spawn(self.wd, 'serve', self.wd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        j = {'trace': trace, 'timeout': timeout}
        if plan is not None: j['plan'] = plan
        else: j.update(prop=prop, seed=seed)
        self.runs += 1
        try:
            self.p.stdin.write(json.dumps(j) + '\n'); self.p.stdin.flush(); l = self.p.stdout.readline()
        except BrokenPipeError: l = ''
        if not l: self.close(); return {'v': None, 'h': 'server-died', 'st': {}, 'log': []}
        return json.loads(l)
    def close(self):
        if self.p: kill(self.p); self.p = None

def gen(env, prop, seed):
    wd = env.wd(); p = env.spawn(wd, 'gen', prop, seed, stdout=subprocess.PIPE, text=True); o = p.stdout.read(); p.wait(); return json.loads(o)

def minimise(sv, plan, v, budget):
    """delta debugging over steps, then over fault scripts; every step's arguments are taken modulo the state, so every subset is a plan"""
    t0 = time.time(); tmo = 8 if v['kind'] == 'hang' else 60
    def bad(p):
        if time.time() - t0 > budget: return False
        r = sv.run(plan=p, timeout=tmo)['v']
        return bool(r) and r['kind'] == v['kind']
    def with_steps(s, base): q = dict(base); q['steps'] = s; return q
    steps = plan['steps']
    if v.get('step', -1) >= 0 and not plan['cfg'].get('crash'):
        q = with_steps(steps[:v['step'] + 1], plan)
        if bad(q): steps = q['steps']
    if plan['cfg'].get('crash'):
        q = json.loads(json.dumps(with_steps(steps, plan))); del q['cfg']['crash']
        if bad(q): plan = q
    n = 2
    while len(steps) >= 2 and time.time() - t0 < budget:
        k = max(1, len(steps) // n); done = False
        for i in range(0, len(steps), k):
            s = steps[:i] + steps[i + k:]
            if not s: continue
            if bad(with_steps(s, plan)): steps = s; n = max(2, n - 1); done = True; break
        if not done:
            if k == 1: break
            n = min(len(steps), n * 2)
    def scripts(steps):
        for i, s in enumerate(steps):
            for j in range(len(s[1][5])): yield i, j
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for i, j in list(scripts(steps)):
            s = json.loads(json.dumps(steps)); del s[i][1][5][j]
            if bad(with_steps(s, plan)): steps = s; changed = True; break
    for i in range(len(steps)):  # one task is easier to read than four
        if steps[i][0] != 0:
            s = json.loads(json.dumps(steps)); s[i][0] = 0
            if bad(with_steps(s, plan)): steps = s
    return with_steps(steps, plan)

def known():
    r = {}
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'KNOWN (\S+) property=(\S+) (.*)', l)
        if m: r[m[1]] = (m[2], m[3].strip())
    return r

def replay(path):
    j = json.load(open(path)); env = Env(build()); sv = Server(env)
    try:
        r = sv.run(plan=j['plan'], trace=True)
        for l in r['log'][-80:]: print('  ' + l[:240])
        if r['v']:
            print(f"{r['v']['kind']}: {r['v']['msg']}")
            print('reproduced exactly' if r['h'] == j['hash'] else 'violated, with a different history')
            print(f"VIOLATION property={j['property']} replay={path}"); return 1
        print('no violation'); return 0
    finally: sv.close(); env.close()

COMPONENTS = {
    'real': ['all C sources of the teds extension, compiled from /repo (AddressSanitizer)', 'PHP 8.3 engine: executor, fibers, generators, garbage collector, serializer, destructors'],
    'simulated': ['task scheduler (seeded, PHP fibers)', 'user code: callbacks, element sources, destructors, error handlers', 'PHP memory allocator (deterministic, fails on demand at the n-th allocation)', 'process crash and restart with only serialized state surviving', 'stored bytes (truncation, bit flips, splices)'],
    'stub': [],
}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--build', action='store_true')
    ap.add_argument('--runs', type=int); ap.add_argument('--seconds', type=float); ap.add_argument('--start', type=int)
    a = ap.parse_args()
    if a.build: print(build()); return 0
    if a.replay: return replay(a.replay)
    prop, tier = a.prop, 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time(); base = int(os.environ.get('VERIF_SEED', '1') or 1)
    env = Env(build()); tb = time.time() - t0
    total = a.runs or (RUNS[prop] if tier == 'quick' else RUNS[prop] * 40)
    cap = a.seconds or CAP[tier]; start = a.start if a.start is not None else base * 10_000_000
    per = (total + JOBS - 1) // JOBS
    ws = []
    for k in range(JOBS):
        wd = env.wd(); ws.append((wd, env.spawn(wd, 'run', prop, start + k * per, per, cap, wd, stdout=open(wd + '/out', 'w'))))
    fails, seen = [], {}
    try:
        while any(p.poll() is None for _, p in ws):
            time.sleep(0.1)
            for wd, p in ws:
                pos = seen.get(wd, 0)
                with open(wd + '/out') as f: f.seek(pos); d = f.read()
                if '\n' not in d: continue
                cut = d.rindex('\n') + 1; seen[wd] = pos + len(d[:cut].encode())
                for l in d[:cut].splitlines():
                    if l.startswith('{"fail"'): fails.append(json.loads(l))
            if fails and tier == 'quick': break
            if time.time() - t0 > cap + 150: break
        ended = [p.poll() for _, p in ws]
        for _, p in ws:
            if fails or time.time() - t0 > cap + 150: kill(p)
        agg = collections.Counter(); done = nontriv = 0; samples = []; redo = []; kn = set(); states = set(); hashes = set(); secs = 0.0; summ = 0
        for wd, p in ws:
            for l in open(wd + '/out'):
                try: j = json.loads(l)
                except ValueError: continue
                if 'fail' in j and j not in fails: fails.append(j)
                if 'summary' in j:
                    summ += 1; done += j['done']; nontriv += j['nontriv']; agg.update(j['st']); samples += j['samples'][:1]; redo += j['redo'][:2]; kn |= set(j['kn']); secs = max(secs, j['secs'])
            for n, s in (('states', states), ('hashes', hashes)):
                if os.path.exists(f'{wd}/{n}'): s |= set(open(f'{wd}/{n}').read().split())
        if not fails and summ < len(ws):
            print(f'worker processes ended early: {ended}'); return 2
        sv = Server(env); viol = None; flaky = []
        fails.sort(key=lambda f: f['fail'])
        for f in fails[:6]:
            plan = gen(env, prop, f['fail']); rep = None
            for _ in range(3):
                r = sv.run(plan=plan)
                if r['v']: rep = r; break
            if rep is None: flaky.append(f); continue
            m = minimise(sv, plan, rep['v'], 40 if tier == 'quick' else 120); r = sv.run(plan=m, trace=True)
            if not r['v']: m = plan; r = sv.run(plan=m, trace=True)
            if not r['v']: m = plan; r = rep
            os.makedirs(HERE + '/replays', exist_ok=True); path = f"{HERE}/replays/{prop}-{f['fail']}.json"
            json.dump({'property': prop, 'seed': f['fail'], 'violation': r['v'], 'hash': r['h'], 'original_steps': len(plan['steps']), 'steps': len(m['steps']), 'trace': r['log'][-200:], 'plan': m,
                       'how_to_replay': f'python3 {HERE}/check.py --replay {path}'}, open(path, 'w'), indent=1)
            viol = (r['v'], path, f['fail'], m); break
        # one seed is one execution: run some seeds again in a fresh process and compare their histories
        redo = redo[:12] if tier == 'quick' else redo; redone = same = 0
        if not viol:
            for seed, h in redo:
                r = sv.run(prop=prop, seed=seed); redone += 1; same += r['h'] == h
        sv.close()
        kf = known(); new = [k for k in sorted(kn) if k not in kf]
        for k in sorted(kn):
            if k in kf and kf[k][0] == prop: print(f'KNOWN-FINDING: property={prop} {kf[k][1]}')
        wall = time.time() - t0
        faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith('fault_')}
        ev = {'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': 1 if viol or new else 0,
              'coverage': {
                  'evaluations': done, 'distinct_nontrivial': len(hashes),
                  'rule': 'one evaluation = one simulated run: a seed is expanded to a configuration, a task schedule, operations and a fault script, and executed against the real extension next to the reference model. Non-trivial: at least 5 operations executed; distinct: different hash of the whole observed history.',
                  'samples': samples[:4], 'seeds': f'{start}..{start + per * JOBS - 1} (' + str(done) + ' executed)', 'nontrivial_runs': nontriv,
                  'runs_per_hour': int(done / max(secs, 0.001) * 3600), 'operations': agg.get('ops', 0),
                  'simulated_time': {'unit': 'operations and user-code points (the code under test reads no clock)', 'operations': agg.get('ops', 0), 'user_code_points': sum(v for k, v in agg.items() if k.startswith('point_'))},
                  'faults_injected': faults, 'faults_total': sum(faults.values()),
                  'tasks_started': agg.get('tasks', 0), 'resumes': agg.get('resumes', 0),
                  'distinct_states': len(states), 'distinct_states_measure': 'hash of (class, contents, states of its live iterators) after an operation',
                  'distinct_histories': len(hashes), 'lifetime_checks': agg.get('lifetime_checks', 0), 'leak_checked_runs': agg.get('leak_runs', 0),
                  'operations_by_kind': {k[3:]: v for k, v in sorted(agg.items()) if k.startswith('op_')},
                  'determinism': {'seeds_rerun': redone, 'identical_histories': same}, 'unreproduced_failures': flaky,
                  'components': COMPONENTS, 'build_s': round(tb, 2)},
              'assumptions': ['PHP 8.3 engine and the C library behave as specified', 'the reference model states the documented behaviour', 'only the seeds listed were explored']}
        os.makedirs(HERE + '/evidence', exist_ok=True); json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
        if viol:
            v, path, seed, m = viol
            print(f"seed {seed}: {v['kind']}: {v['msg']}"[:2000]); print(f"minimised to {len(m['steps'])} steps")
            print(f'VIOLATION property={prop} replay={path}'); return 1
        if new:
            path = f'{HERE}/replays/{prop}-{new[0]}.json'; os.makedirs(HERE + '/replays', exist_ok=True); json.dump({'property': prop, 'finding': new, 'plan': gen(env, prop, start), 'hash': ''}, open(path, 'w'))
            print(f'unlisted finding {new}'); print(f'VIOLATION property={prop} replay={path}'); return 1
        print(f"{prop}: held on {done} runs, {agg.get('ops', 0)} operations, {sum(faults.values())} injected faults, {len(states)} distinct states, {wall:.0f} s; rerun {same}/{redone} identical" + (f'; {len(flaky)} unreproduced' if flaky else ''))
        return 0
    finally:
        for _, p in ws: kill(p)
        env.close()

if __name__ == '__main__':
    sys.exit(main())
