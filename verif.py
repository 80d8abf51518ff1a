#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks (see DESIGN.md).

  verif.py setup                 build everything once (setup_cmd)
  verif.py check C05 [--tier T]  build from /repo's tree, explore, judge, write evidence
  verif.py replay FILE [-v]      re-execute a replay file
  verif.py soak C05 SECONDS      list all violations found (development)
"""
import hashlib, json, os, shutil, struct, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
NCPU = len(os.sched_getaffinity(0)) or 1

CXX = 'g++'
RT_FLAGS = '-std=c++17 -O2 -g -fno-threadsafe-statics -fno-omit-frame-pointer -Wall -Wno-nonnull-compare'.split()
INSTR = '-std=c++11 -O1 -g -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer -D_REENTRANT -fno-strict-aliasing -w'.split()
PLAIN = '-std=c++11 -O1 -g -fno-omit-frame-pointer -D_REENTRANT -w'.split()

ALL = ['src/concurrent', 'src/system', 'src/lang', 'src/math', 'src/text', 'src/data', 'src/network:flat', 'src/network/rpc', 'src/network/http', 'src/network/cgi']
from props import PROPS      # per property: harness, library parts, options

class Err(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()

_fh = {}
def fhash(path):
    if path not in _fh:
        try:
            with open(path, 'rb') as f: _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[path] = 'missing'
    return _fh[path]

def compile_one(src, flags, tag):
    """content-addressed object cache"""
    odir = os.path.join(BUILD, 'obj'); os.makedirs(odir, exist_ok=True)
    ident = sha(src, ' '.join(flags), tag)[:20]
    obj, dep, key = (os.path.join(odir, ident + e) for e in ('.o', '.d', '.key'))
    def current_key(deps): return sha(*(d + ':' + fhash(d) for d in sorted(deps)))
    if os.path.exists(obj) and os.path.exists(key):
        try:
            with open(key) as f: rec = json.load(f)
            if current_key(rec['deps']) == rec['key']: return obj, None
        except Exception: pass
    tmp = '%s.%d.tmp.o' % (obj, os.getpid())
    dtmp = '%s.%d.tmp.d' % (dep, os.getpid())
    p = subprocess.run([CXX] + flags + ['-MD', '-MF', dtmp, '-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
    if p.returncode: 
        for x in (tmp, dtmp):
            if os.path.exists(x): os.unlink(x)
        return None, p.stdout
    with open(dtmp, encoding='utf-8', errors='replace') as f: txt = f.read()
    deps = [os.path.abspath(d) for d in txt.replace('\\\n', ' ').split(':', 1)[1].split()]
    deps = [d for d in deps if not d.startswith('/usr/')]
    os.replace(tmp, obj); os.replace(dtmp, dep)
    with open(key + '.tmp%d' % os.getpid(), 'w') as f: json.dump({'deps': deps, 'key': current_key(deps)}, f)
    os.replace(key + '.tmp%d' % os.getpid(), key)
    return obj, None

def gen_config():
    d = os.path.join(BUILD, 'gen'); os.makedirs(os.path.join(d, 'a', 'b'), exist_ok=True)
    txt = '#pragma once\n#define HAVE_FCGIAPP_H 1\n#define HAVE_STDINT_H 1\n#define HAVE_MYSQL 1\n#define HAVE_MYSQL_H 1\n#define HAVE_POSTGRES_H 1\n#define PFICOMMON_VERSION "4.0.0"\n'
    p = os.path.join(d, 'pfi-config.h')
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, 'w') as f: f.write(txt)
    return os.path.join(d, 'a', 'b')

def lib_sources(parts):
    out = []
    for part in parts:
        p, _, mode = part.partition(':')
        base = os.path.join(REPO, p)
        if os.path.isfile(base): out.append(base); continue
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.cpp') and not f.endswith('_test.cpp'): out.append(os.path.join(dp, f))
            if mode == 'flat': dn[:] = []
    return sorted(set(out))

def build(props, verbose=False):
    """build the binaries of the given properties; returns {prop: path}"""
    gen = gen_config()
    jobs = {}
    def want(src, flags, tag):
        jobs.setdefault((src, tuple(flags), tag), None); return (src, tuple(flags), tag)
    plan = {}
    for pr in props:
        P = PROPS[pr]
        need = []
        for s in ['heap', 'core', 'pthread', 'main'] + P.get('rt', []):
            need.append(want(os.path.join(ROOT, 'sim', s + '.cpp'), RT_FLAGS, 'rt'))
        inc = ['-I' + os.path.join(REPO, 'src'), '-I' + gen, '-I' + ROOT] + P.get('inc', [])
        hs = P['harness'] if isinstance(P['harness'], list) else [P['harness']]
        for h in hs: need.append(want(os.path.join(ROOT, 'checks', h), INSTR + P.get('hflags', []) + inc, 'h'))
        for h in P.get('plain', []): need.append(want(os.path.join(ROOT, 'checks', h), PLAIN + inc, 'p'))
        for s in lib_sources(P.get('lib', ALL)): need.append(want(s, INSTR + P.get('lflags', []) + inc, 'lib'))
        plan[pr] = need
    def work(j): return j, compile_one(j[0], list(j[1]), j[2])
    # biggest first: harnesses
    order = sorted(jobs, key=lambda j: (j[2] != 'h', j[0]))
    with ThreadPoolExecutor(NCPU) as ex:
        for j, r in ex.map(work, order): jobs[j] = r
    bins = {}
    bdir = os.path.join(BUILD, 'bin'); os.makedirs(bdir, exist_ok=True)
    for pr in props:
        objs, bad, libs = [], [], []
        for j in plan[pr]:
            o, e = jobs[j]
            if o is None:
                bad.append((j[0], e))
                if j[2] != 'lib': raise Err('compilation of %s failed:\n%s' % (j[0], e))
            elif j[2] == 'lib': libs.append(o)
            else: objs.append(o)
        out = os.path.join(bdir, pr)
        ck = sha(*objs, *libs, *(fhash_fresh(o) for o in objs + libs), ' '.join(PROPS[pr].get('libs', [])))
        if os.path.exists(out) and os.path.exists(out + '.key') and open(out + '.key').read() == ck:
            bins[pr] = out; continue
        tmp = '%s.%d' % (out, os.getpid())
        ar = tmp + '.a'        # an archive: only what the harness reaches is linked in
        if os.path.exists(ar): os.unlink(ar)
        subprocess.run(['ar', 'rcs', ar] + libs, check=True, stdout=subprocess.DEVNULL)
        p = subprocess.run([CXX, '-no-pie', '-rdynamic', '-o', tmp] + objs + [ar] + PROPS[pr].get('libs', []) + ['-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
        os.unlink(ar)
        if p.returncode: raise Err('linking %s failed:\n%s\n%s' % (pr, p.stdout[-4000:], '\n'.join('%s: %s' % b for b in bad)[:4000]))
        os.replace(tmp, out)
        with open(out + '.key', 'w') as f: f.write(ck)
        bins[pr] = out
    return bins

def fhash_fresh(p):
    with open(p, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()

def work_dir(prop):
    d = os.path.join(BUILD, 'work', '%s.%d' % (prop, os.getpid())); os.makedirs(d, exist_ok=True); return d

def known_findings():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt'); out = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8', errors='replace'):
            m = re.match(r'known: property=(\S+) scenario=(\S+) id=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def run_workers(prop, binp, seed, count, wall, extra=(), nw=None):
    nw = nw or int(os.environ.get('VERIF_NW', NCPU)); cpu0 = int(os.environ.get('VERIF_CPU0', '0'))
    wd = work_dir(prop); rdir = os.path.join(ROOT, 'replays'); os.makedirs(rdir, exist_ok=True)
    stop = os.path.join(wd, 'stop')
    if os.path.exists(stop): os.unlink(stop)
    ps = []
    per = (count + nw - 1) // nw
    for i in range(nw):
        out = os.path.join(wd, 'out%d' % i)
        ps.append((out, subprocess.Popen([binp, '--prop=' + prop, '--seed=%d' % (seed * 1000003 * 4096 + i), '--stride=%d' % nw, '--count=%d' % per, '--wall=%g' % wall,
                   '--cpu=%d' % (cpu0 + i), '--out=' + out, '--stop=' + stop, '--rdir=' + rdir] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')))
    res, ih, cov = [], set(), set()
    for out, p in ps:
        so, _ = p.communicate()
        if '--slow' in extra and so: print(so.strip())
        if p.returncode: raise Err('worker failed (%d): %s' % (p.returncode, so[-2000:]))
        with open(out, encoding='utf-8', errors='replace') as f: res.append(json.load(f))
        with open(out + '.set', 'rb') as f: data = f.read()
        vals = struct.unpack('<%dQ' % (len(data) // 8), data); z = vals.index(0) if 0 in vals else len(vals)
        ih.update(vals[:z]); cov.update(vals[z + 1:])
    shutil.rmtree(wd, ignore_errors=True)
    return res, ih, cov

def merge(res):
    t = {}
    for k in ('runs', 'violations', 'errors', 'unreproducible', 'hiccups', 'nontrivial', 'steps', 'calls', 'switches', 'preemptions', 'sim_ms', 'threads', 'det_checked', 'det_bad'): t[k] = sum(r[k] for r in res)
    for k in ('max_threads', 'max_steps', 'max_calls', 'max_run_s'): t[k] = max(r[k] for r in res)
    f, s = {}, {}
    for r in res:
        for k, (a, b) in r['faults'].items(): x = f.setdefault(k, [0, 0]); x[0] += a; x[1] += b
        for k, a in r['scenarios'].items(): s[k] = s.get(k, 0) + a
    t['faults'], t['scenarios'] = f, s
    t['samples'] = [x for r in res for x in r['samples']][:6]
    return t

def check(prop, tier):
    t0 = time.time(); P = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    bins = build([prop]); tb = time.time() - t0
    if tier == 'thorough': count, wall = P.get('thorough', (4000000, 600))
    else: count, wall = P.get('quick', (400000, 45))
    scale = float(os.environ.get('VERIF_SCALE', '1')); count = int(count * scale)
    tr = time.time()
    res, ih, cov = run_workers(prop, bins[prop], seed, count, wall)
    run_wall = time.time() - tr
    t = merge(res)
    viol = sorted((r['violation'] for r in res if r.get('violation')), key=lambda v: v['seed'])
    kf = known_findings(); known_hit = []
    errs = [r['error_text'] for r in res if r['error_text']]
    status = 0; lines = []
    confirmed = None
    for v in viol:
        # gate: the minimised replay file must reproduce in a fresh process
        p = subprocess.run([bins[prop], '--replay=' + v['replay']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace')
        if p.returncode == 1: confirmed = v; break
        errs.append('replay of %s did not reproduce: %s' % (v['replay'], p.stdout[-500:]))
    if confirmed:
        v = confirmed; rp = os.path.relpath(v['replay'], ROOT)
        print('%s: %s in scenario %s, seed %d: %s' % (prop, v['id'], v['scenario'], v['seed'], v['msg']))
        print('minimised from %d to %d decisions with %d runs; replay: ./verif.py replay %s' % (v['original'], v['decisions'], v['min_runs'], rp))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(ROOT, rp)))
        status = 1
    elif errs and (viol or t['errors'] or t['unreproducible'] > 3):
        print('ERROR: the simulator could not give an answer: ' + '; '.join(errs)[:3000]); status = 2
    for (kp, sc, kid, text) in kf:
        if kp == prop: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    wall_s = time.time() - t0
    rate = t['runs'] / run_wall * 3600 if run_wall > 0 else 0
    faults = {k: {'injected': a, 'runs': b} for k, (a, b) in sorted(t['faults'].items())}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'wall_s': round(wall_s, 2), 'violations': 1 if confirmed else 0,
          'coverage': {
            'evaluations': t['runs'], 'distinct_nontrivial': len(ih),
            'rule': 'one evaluation = one simulated run (seed -> scenario, workload, schedule, faults). Non-trivial: at least three context switches or one injected fault. Distinct: different order of (thread, intercepted call), context switches and injected faults. ' + P.get('rule', ''),
            'samples': t['samples'] + ([json.dumps(confirmed)] if confirmed else []),
            'nontrivial_runs': t['nontrivial'], 'distinct_interleavings': len(ih), 'distinct_outcome_states': len(cov),
            'simulated_runs_per_hour': int(rate), 'seeds': 'VERIF_SEED*4096003... + i, %d seeds' % t['runs'],
            'simulated_time_s': t['sim_ms'] / 1000.0, 'memory_steps': t['steps'], 'intercepted_calls': t['calls'], 'context_switches': t['switches'], 'preemptions': t['preemptions'],
            'threads_created': t['threads'], 'max_threads': t['max_threads'], 'max_steps_in_a_run': t['max_steps'], 'max_calls_in_a_run': t['max_calls'],
            'faults_injected': faults, 'runs_per_scenario': t['scenarios'],
            'determinism': {'reruns_compared': t['det_checked'], 'mismatches': t['det_bad'], 'unreproducible_failures': t['unreproducible'], 'runs_repeated_after_machine_trouble': t['hiccups']},
            'real_code': P.get('real', ''), 'stubs': P.get('stubs', 'scheduler, pthread primitives, clocks and heap are simulated'),
            'build_s': round(tb, 2)},
          'assumptions': P.get('assumptions', ['sequentially consistent memory; preemption at instrumented accesses and intercepted calls only'])}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d runs (%d distinct interleavings), %.1f s simulated time, %d fault injections, %.1f s; determinism %d/%d' % (prop, 'ok' if status == 0 else 'FAILED', t['runs'], len(ih), t['sim_ms'] / 1000.0,
          sum(a for k, (a, b) in t['faults'].items() if k not in ('preempt',)), wall_s, t['det_checked'] - t['det_bad'], t['det_checked']))
    return status

def main():
    a = sys.argv[1:]
    for st in (sys.stdout, sys.stderr): st.reconfigure(errors='backslashreplace')
    if not a: print(__doc__); return 2
    try:
        if a[0] == 'setup':
            build(sorted(PROPS)); print('built %d checks' % len(PROPS)); return 0
        if a[0] == 'check':
            tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
            return check(a[1], tier)
        if a[0] == 'replay':
            prop = None
            for l in open(a[1], encoding='utf-8', errors='replace'):
                if l.startswith('property '): prop = l.split()[1]; break
            b = build([prop])
            return subprocess.run([b[prop], '--replay=' + a[1]] + (['--v'] if '-v' in a else [])).returncode
        if a[0] == 'soak':
            b = build([a[1]]); secs = float(a[2]); ex = ['--keep-going', '--slow']
            if len(a) > 3: ex.append('--scenario=' + a[3])
            res, ih, cov = run_workers(a[1], b[a[1]], int(os.environ.get('VERIF_SEED', '1')), 10**9, secs, ex)
            t = merge(res); seen = {}
            for r in res:
                for v in r['all']:
                    k = re.sub(r'seed \d+ ', '', v)[:60]
                    seen.setdefault(k, [0, v]); seen[k][0] += 1
            t.pop('samples')
            print(json.dumps(t)); print('distinct', len(ih), 'states', len(cov), 'rate/s', t['runs'] / secs)
            for k, (n, v) in sorted(seen.items(), key=lambda x: -x[1][0])[:12]: print(n, v[:400])
            for r in res:
                if r['error_text']: print('ERR', r['error_text'])
            return 0
        if a[0] == 'hunt':       # first violation only, no minimisation (development)
            b = build([a[1]]); res, ih, cov = run_workers(a[1], b[a[1]], int(os.environ.get('VERIF_SEED', '1')), 10**9, float(a[2]), ['--minwall=0'])
            v = [r['violation'] for r in res if r.get('violation')]; t = merge(res)
            if v: print('HIT %s [%s] %s' % (v[0]['id'], v[0]['scenario'], v[0]['msg'][:200])); return 1
            print('QUIET %d runs %s' % (t['runs'], [r['error_text'] for r in res if r['error_text']][:1])); return 0
        if a[0] == 'one':
            b = build([a[1]]); return subprocess.run([b[a[1]], '--prop=' + a[1], '--one', '--seed=' + a[2]] + (['--scenario=' + a[3]] if len(a) > 3 else [])).returncode
    except Err as e:
        print('ERROR: %s' % e); return 2
    print(__doc__); return 2

if __name__ == '__main__':
    sys.exit(main())
