#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SCENARIO] [--list] [--time S] [--bound N]
Builds the model checker and the harness of one property against /repo's working tree, explores
every scenario registered for the property, writes evidence/<ID>.json and prints the verdict.
check.py replay FILE re-runs a recorded violation with a readable trace."""
import sys, os, subprocess, json, hashlib, time, shutil, glob, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
CXX = '/usr/bin/clang++-16'
JOBS = 8
STD = ['-std=c++2a', '-fcoroutines-ts', '-Wno-deprecated-experimental-coroutine', '-stdlib=libstdc++']
FLAGS = ['-fPIC', '-pthread',
         '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DLIBRF_DYNAMIC_EXPORTS=1',
         '-I' + REPO + '/include', '-I' + V + '/mc']

# C30: other compilers, with their C++20 coroutines
COMPILERS = {'gcc': ('/usr/bin/g++', ['-std=c++20', '-fcoroutines']), 'clang18': ('/usr/bin/clang++', ['-std=c++20'])}
# C30: the same harnesses with the library's build options
ONE = {'C02': r'seq-(CI|CIM|CP|CMM)-true-.*|seq-CIO-true-cap1-len9|big-CI-300|crowd-.*', 'C08': r'programs-2x2|guards-3|plain-5|recursion-300', 'C04': r'sequences-4|many-300',
       'C13': r'order-(int|void|ref|probe|moveonly)|coroutine-(int|void|ref|moveonly)|chain-30|many-int-40|exception-types', 'C15': r'programs-[12]|crowd-100', 'C16': r'programs-(1x3|2x2|3x1|1x4)|crowd-300|fairness-.*',
       'C18': r'sequences-3|callbacks-3|crowd-[234]|late-[34]|odd-durations|many-129', 'C24': r'shapes-[01]-.*|last-(read|write|guard)|stays|stays-opt|stays-moveonly|rounds-40', 'C23': r'count-.*|timers|callbacks-1|many-40|programs-1', 'C22': 'sequences-callbacks-3|inside-1|many-40'}
MULTI = dict(ONE, C22=ONE['C22'] + r'|request-2-0|taken-2|race-drop|race-move-drop', C02=ONE['C02'] + r'|threads-C.*-[0-5]', C08=ONE['C08'] + r'|same-scheduler-3|co-vs-plain.*|plain-vs-plain|recursive.*', C04=ONE['C04'] + r'|same-scheduler|[12]sig-1wait|initially-signalled-2|ping-pong',
             C13=ONE['C13'] + r'|started-(int|void|ref)|two-futures-.*|race-int', C15=ONE['C15'] + r'|remote-launch-1|wake-.*|watcher.*', C18=ONE['C18'] + r'|foreign-(add|stop)-1', C23=ONE['C23'] + r'|thread-.*', C24=ONE['C24'] + r'|owners-(timed-lock|timed-event|wait-all|stop)|.*-mt')
LANG = dict(MULTI, C25=r'range-.*|history-4-.*|launched-.*|long-100', C14=r'depth-[012]|root-throws|dropped|destructor-.*|throwing-copy|threads-int',
            C20=r'none|void|int|string|move|bool|int-void|val-string|range-.*|dropped|mix', C21=r'none|void|int|string|ref|bool|int-void|val-ref|order-.*|range-.*|dropped|mix|select', C26='all-3|binding-3|deep-100', C17='away.*|child.*|all-3|launching|emigrate',
            C31='one|when-.*|foreign-[01]|yields-.*')
VARIANTS = {'C30': [('single-thread', ['-DRESUMEF_DISABLE_MULT_THREAD=1'], ONE), ('release', ['-DNDEBUG', '-O3'], MULTI), ('debug', ['-D_DEBUG=1'], MULTI),
                    ('counters', ['-DRESUMEF_DEBUG_COUNTER=1', '-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE=1'], MULTI), ('std-mutex', ['-DRESUMEF_USE_CUSTOM_SPINLOCK=std::mutex', '-include', 'mutex'], MULTI),
                    ('gcc', ['gcc'], LANG), ('clang18', ['clang18'], LANG)]}

def die(msg):
    print('ERROR: ' + msg, flush=True); sys.exit(2)

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]

def run(cmd, limit=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    return p.returncode, p.stdout

class BuildFailed(Exception): pass

def build(prop, vflags=()):
    cxx, std, vflags = CXX, STD, list(vflags)
    if vflags and vflags[0] in COMPILERS: cxx, std = COMPILERS[vflags.pop(0)]; named = True
    else: named = bool(vflags)
    FLAGS = std + globals()['FLAGS'] + vflags
    B = os.path.join(V, 'build'); os.makedirs(B, exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/source/*.cpp'))
    if not srcs: die('no sources in ' + REPO)
    inc = tree(REPO + '/include')
    lib_key = digest(srcs + inc, ' '.join(FLAGS))
    rt_key = digest([V + '/mc/rt.cpp', V + '/mc/oracle.cpp', V + '/mc/mc.h'])
    har = V + '/harness/' + prop.lower() + '.cpp'
    if not os.path.exists(har): die('no harness for ' + prop)
    h_key = digest(inc + (tree(REPO + '/asio') if prop == 'C29' else []) + [har] + glob.glob(V + '/mc/*.h') + glob.glob(V + '/harness/*.h'), ' '.join(FLAGS))
    lib_d = B + '/lib-' + lib_key; rt = B + '/rt-' + rt_key; h_o = B + '/h-%s-%s.o' % (prop, h_key)
    jobs = []
    def atomic(cmd, out):
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        rc, o = run(cmd + ['-o', tmp])
        # a harness may have a smaller form for a tree in which not all of it compiles
        if rc and cmd[-1] == har and 'MC_FALLBACK' in open(har).read(): rc, o = run(cmd + ['-DMC_FALLBACK', '-o', tmp])
        if rc: return o
        os.replace(tmp, out); return ''
    os.makedirs(lib_d, exist_ok=True); os.makedirs(rt, exist_ok=True)
    objs = []
    for s in srcs:
        o = lib_d + '/' + os.path.basename(s)[:-4] + '.o'; objs.append(o)
        if not os.path.exists(o): jobs.append(([cxx] + FLAGS + ['-c', s], o))
    if not os.path.exists(h_o): jobs.insert(0, ([cxx] + FLAGS + ['-I' + V + '/harness', '-c', har], h_o))
    so = rt + '/libmcrt.so'
    if not os.path.exists(so):
        jobs.insert(0, ([CXX, '-std=c++20', '-O2', '-g', '-fPIC', '-fno-exceptions', '-fno-omit-frame-pointer', '-shared', V + '/mc/rt.cpp', V + '/mc/oracle.cpp'], so))
    mo = rt + '/main.o'
    if not os.path.exists(mo): jobs.append(([CXX, '-fPIC', '-c', V + '/mc/main.cpp'], mo))
    with ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(lambda j: atomic(*j), jobs):
            if err and named: raise BuildFailed(err)
            if err: die('build failed:\n' + err[-6000:])
    exe = B + '/x-%s-%s' % (prop, hashlib.sha256((lib_key + rt_key + h_key).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        err = atomic([CXX, '-no-pie', '-pthread', '-stdlib=libstdc++', mo, h_o] + objs + ['-L' + rt, '-lmcrt', '-Wl,-rpath,' + rt, '-Wl,-z,now', '-Wl,-z,relro'], exe)
        if err: die('link failed:\n' + err[-6000:])
    # keep the cache small
    for p in (exe, h_o, lib_d, rt):
        if os.path.exists(p): os.utime(p)
    def age(p):
        try: return time.time() - os.path.getmtime(p)
        except OSError: return 0
    for p in sorted(glob.glob(B + '/*'), key=age)[160:]:
        if p not in (exe, h_o, lib_d, rt) and age(p) > 3600:
            try: shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            except OSError: pass
    return exe

def symbolize(exe, pcs):
    try:
        o = subprocess.run(['addr2line', '-Cfpe', exe] + [hex(max(p - 1, 0)) for p in pcs], capture_output=True, text=True, timeout=60).stdout
        return [re.sub(r'/\S*/', '', l)[:240] for l in o.strip().split('\n')]
    except Exception: return [hex(p) for p in pcs]

def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def write_replay(path, viol):
    with open(path + '.sched', 'w') as f:
        f.write('choices %d %s\n' % (len(viol['choices']), ' '.join(map(str, viol['choices']))))
        f.write('switches %d %s\n' % (len(viol['switches']), ' '.join('%d %d' % tuple(s) for s in viol['switches'])))

def do_replay(exe, prop, name, sched, verbose=False):
    p = subprocess.run([exe, '--prop', prop, '--scenario', name, '--replay', sched] + (['--verbose'] if verbose else []), capture_output=True, text=True, timeout=120)
    try: return p.returncode, json.loads(p.stdout.strip().split('\n')[-1]), p.stderr
    except Exception: return p.returncode, None, p.stderr

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'replay':
        r = json.load(open(a[1])); exe = build(r.get('base', r['property']), r.get('flags', ()))
        rc, out, err = do_replay(exe, r.get('base', r['property']), r['scenario'].split('/')[-1], a[1] + '.sched', True)
        print(err); print(json.dumps({k: out[k] for k in ('kind', 'message', 'end')}) if out else 'no result')
        if out and out.get('pcs'): print('\n'.join('   at ' + s for s in symbolize(exe, out['pcs'])))
        return rc
    if a[0] == 'build':
        for p in a[1:]:
            if p not in VARIANTS: build(p)
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; listing = False; tmax = None; bound = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 2
        elif a[i] == '--only': only = a[i+1]; i += 2
        elif a[i] == '--time': tmax = float(a[i+1]); i += 2
        elif a[i] == '--bound': bound = a[i+1]; i += 2
        elif a[i] == '--list': listing = True; i += 1
        else: die('unknown option ' + a[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # (name, program, property the harness is registered under, name there, compiler options)
    scs = []; violations = []
    rdir = V + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    def collect(exe, base, pat, prefix='', vflags=()):
        if any(v[1] == 'start' for v in violations): return
        # the constructors of the library's own global objects run here, outside the explorer
        try: rc, out = run([exe, '--list'], 60)
        except subprocess.TimeoutExpired: rc, out = 'no end within 60 s', ''
        if rc:
            path = '%s/%s-%s.json' % (rdir, prop, (prefix + 'start').replace('/', '-')); msg = 'a program that uses the library does not get as far as main(): ' + (rc if isinstance(rc, str) else 'exit status %d: %s' % (rc, out[-300:]))
            json.dump(dict(property=prop, scenario=prefix + 'start', kind='start', message=msg), open(path, 'w')); violations.append((prefix + 'start', 'start', msg, path, [])); return
        for l in out.split('\n'):
            w = l.split()
            if len(w) == 5 and w[0] == base:
                if int(w[4]) & 2 and (tier != 'thorough' or prefix): continue
                if pat and not re.fullmatch(pat, w[1]): continue
                if only and not re.fullmatch(only, prefix + w[1]): continue
                scs.append((prefix + w[1], exe, base, w[1], list(vflags)))
    if prop in VARIANTS:
        def vbuild(j):
            try: return j, build(j[2], j[1]), ''
            except BuildFailed as e: return j, None, str(e)
        todo = [(vn, vf, base, pat) for vn, vf, hs in VARIANTS[prop] for base, pat in hs.items() if not only or vn in only or '*' in only]
        firsts = {}
        for j in todo: firsts.setdefault(j[0], j)
        failed = {}; done = {}
        # the library of each variant once, then the harnesses in parallel
        with ThreadPoolExecutor(4) as ex:
            for j, exe, err in ex.map(vbuild, firsts.values()): done[j[0], j[2]] = exe; failed[j[0]] = err
        with ThreadPoolExecutor(8) as ex:
            for j, exe, err in ex.map(vbuild, [j for j in todo if (j[0], j[2]) not in done and not failed[j[0]]]):
                done[j[0], j[2]] = exe; failed[j[0]] = failed[j[0]] or err
        for vn, vf, base, pat in todo:
            if done.get((vn, base)): collect(done[vn, base], base, pat, vn + '/' + base + '/', vf)
        for vn, err in failed.items():
            if err:
                path = '%s/%s-%s-build.json' % (rdir, prop, vn); json.dump(dict(property=prop, scenario=vn, kind='build', message=err[-4000:]), open(path, 'w'))
                violations.append((vn + '/build', 'build', 'the library cannot be built or used with this option: ' + ' '.join(re.findall(r'[^\n]*error:[^\n]*', err)[:2])[:300], path, []))
    else: collect(build(prop), prop, None)
    build_s = time.time() - t0
    if listing: print('\n'.join(map(str, scs))); return 0
    if not scs and not violations: die('no scenarios for ' + prop)
    known = [k for k in known_findings() if k['property'] == prop and k.get('status') == 'known']
    budget = (tmax or (110 if tier == 'quick' else 780)); each = (10 if prop in VARIANTS else 40) if tier == 'quick' else (40 if prop in VARIANTS else 300)
    # a scenario's own limit, so that all of them together keep to the budget
    deadline = (time.time() if prop in VARIANTS else t0) + budget
    results = []
    def one(sc):
        name, exe, base, sname, vf = sc
        left = max(5.0, min(each, deadline - time.time()))
        cmd = [exe, '--prop', base, '--scenario', sname, '--time', '%.1f' % left]
        if tier == 'thorough': cmd.append('--thorough')
        if bound: cmd += ['--bound', bound]
        ks = [k for k in known if re.fullmatch(k['scenario'], name)]
        for k in ks: cmd += ['--known', k['signature']]
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=left + 120)
                line = p.stdout.strip().split('\n')[-1]
                r = json.loads(line)
                r['scenario'] = name; r['_sc'] = sc; r['rc'] = p.returncode; r['_known'] = ks; r['stderr'] = p.stderr[-500:]
                return r
            except subprocess.TimeoutExpired:
                return dict(scenario=name, rc=3, error='the explorer did not stop in time')
            except Exception as e:
                err = 'explorer ended with %s: %s' % (p.returncode, (p.stdout + p.stderr)[-400:])
        return dict(scenario=name, rc=3, error=err, crashed=p.returncode < 0)
    with ThreadPoolExecutor(JOBS) as ex: results = list(ex.map(one, scs))
    errors = []; replayed = 0; khits = {}
    for r in results:
        name = r['scenario']; fname = name.replace('/', '-')
        if r['rc'] == 3:
            if r.get('crashed'):
                path = '%s/%s-%s.json' % (rdir, prop, fname)
                json.dump(dict(property=prop, scenario=name, kind='crash', message=r['error']), open(path, 'w'))
                violations.append((name, 'crash', r['error'], path, []))
            else: errors.append('%s: %s' % (name, r['error']))
            continue
        if 'internal' in r: errors.append('%s: internal: %s' % (name, r['internal'])); continue
        for k, h in zip(r.get('_known', []), r.get('known', [])):
            if h: khits[k['id']] = (k, khits.get(k['id'], (k, 0))[1] + h)
        _n, exe, base, sname, vf = r['_sc']
        if 'violation' in r:
            v = r['violation']; path = '%s/%s-%s.json' % (rdir, prop, fname)
            write_replay(path, v)
            ok = 0
            for _ in range(2):
                rc, out, _e = do_replay(exe, base, sname, path + '.sched')
                if out and out.get('kind') == v['kind'] and out.get('message') == v['message']: ok += 1
            replayed += ok
            tr = symbolize(exe, v['pcs']) if v['pcs'] else []
            json.dump(dict(property=prop, scenario=name, base=base, flags=vf, kind=v['kind'], message=v['message'], at=tr, choices=v['choices'], switches=v['switches'], confirmed=ok == 2,
                           how='%s/check.py replay %s' % (V, path)), open(path, 'w'), indent=1)
            # what an execution of the code showed stands, even when it depends on the contents of dead memory and a replay ends differently
            violations.append((name, v['kind'], v['message'] + ('' if ok == 2 else ' (replays end differently: the outcome depends on memory the code must not read)'), path, tr))
        elif 'last' in r and r['complete']:
            path = '%s/%s-%s.last' % (rdir, prop, fname)
            write_replay(path, r['last'])
            if r.get('_known') and any(r['known']): continue
            rc, out, _e = do_replay(exe, base, sname, path + '.sched')
            os.unlink(path + '.sched')
            if out and rc in (0,): replayed += 1
            elif out and out.get('end') == 2 or rc == 0: pass
    good = [r for r in results if 'states' in r]
    cov = dict(states=sum(r['states'] for r in good), transitions=sum(r['transitions'] for r in good),
               traces_validated_against_impl=sum(r['terminal'] for r in good),
               executions=sum(r['all_executions'] for r in good), schedules_replayed=replayed,
               pruned_as_already_explored=sum(r['pruned'] for r in good),
               instrumented_steps=sum(r['steps'] for r in good),
               scenarios=len(results), scenarios_complete=sum(1 for r in good if r['complete']),
               exhaustive=all(r.get('complete') for r in results),
               explanation='Every execution is a run of the real library code under the controlled scheduler. Per scenario, preemption bounds 0, 1, 2, .. are explored completely one after the other; done_bound is the last one that was. states: distinct happens-before '
               'histories at scheduling points plus completed executions; transitions: scheduling and environment decisions taken in the final '
               'exploration round (the last bound); traces_validated_against_impl: executions of the implementation that ran to the end and passed the oracle; '
               'exhaustive: every scenario finished within its preemption bound (bound_cuts = 0 means that the bound cut nothing off).',
               per_scenario=[{k: r.get(k) for k in ('scenario', 'executions', 'states', 'transitions', 'bound', 'done_bound', 'bound_cuts', 'visible', 'threads', 'rounds', 'complete', 'wall', 'max_steps')} for r in results],
               samples=[dict(scenario=r['scenario'], choices=r['last']['choices'][:60], switches=r['last']['switches'][:60]) for r in good if 'last' in r][:3] or [dict(scenario=v[0], violation=v[2]) for v in violations][:3])
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=['sequentially consistent memory', 'preemptions per execution limited to the bound given per scenario', 'scenarios are the finite programs in ' + ('the harnesses named in the scenario names' if prop in VARIANTS else 'harness/%s.cpp' % prop.lower()),
                           'scheduling points: atomics, locks and every plain access seen racing in some explored execution', 'compiled with ' + ('clang 16, clang 18 and gcc 13 with the options named by the first part of the scenario name' if prop in VARIANTS else 'clang 16 at -O1, assertions on')])
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    for k, h in khits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in sorted(good, key=lambda r: -r['wall'])[:6 if not only else 100]:
        print('  %-34s exec %8d states %8d bound %d/%d cuts %8d vis %4d %s %.1fs' % (r['scenario'], r['executions'], r['states'], r['done_bound'], r['bound'], r['bound_cuts'], r['visible'], 'complete' if r['complete'] else 'PARTIAL', r['wall']))
    print('%s %s: %d scenarios, %d complete, %d executions, %d states, build %.1fs, total %.1fs' % (prop, tier, len(results), cov['scenarios_complete'], cov['executions'], cov['states'], build_s, time.time() - t0))
    for e in errors: print('ERROR: ' + e)
    for name, kind, msg, path, tr in violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario %s: %s: %s' % (name, kind, msg))
        for s in tr[:10]: print('     at ' + s)
    if violations: return 1
    if errors: return 2
    return 0
sys.exit(main())
