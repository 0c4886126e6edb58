#!/usr/bin/env python3
"""Runs the solver-based check of one property:  check.py P01 [--tier quick|thorough]

For every harness of the property: compile the harness and the /repo sources it
exercises to LLVM bitcode, execute them symbolically with engine/gpse (one
process per parameter configuration), replay counterexamples and a sample of the
explored paths natively (AddressSanitizer build of the same sources), report.
Exit: 0 held on everything explored, 1 reproduced violation, 2 could not run."""
import sys, os, json, subprocess, hashlib, time, shutil, re, glob, threading, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
REPO = os.environ.get('GP_REPO', '/repo')
BUILD = os.environ.get('GP_BUILD', os.path.join(V, 'build'))
LL = '/usr/lib/llvm-18/bin/'
CPUS = os.cpu_count() or 4
T0 = time.time()
ONECFG = []
INC = ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + V + '/rt/shim', '-I' + REPO + '/src', '-I' + REPO + '/src/partition']
COMMON = ['-std=gnu++17', '-w', '-g', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-DGP_VERIF']
BCF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D__NO_INLINE__', '-include', V + '/rt/pre.h', '-emit-llvm', '-c']
NATF = ['-DGP_NATIVE', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def engine():
    out = BUILD + '/engine'
    os.makedirs(out, exist_ok=True)
    with open(BUILD + '/engine.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-C', V + '/engine', 'OUT=' + out, '-j%d' % CPUS])
        if r.returncode or not os.path.exists(out + '/gpse'):
            log(r.stdout[-3000:]); log('cannot build the engine'); sys.exit(2)
    return out + '/gpse'

_h = {}
def fhash(p):
    if p not in _h:
        try: _h[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        except OSError: _h[p] = 'missing'
    return _h[p]

class CompileError(Exception): pass

def compile1(src, defs, kind, deadline):
    """compile src to bitcode (kind bc) or an ASan object (kind nat); cached on the content of every included file"""
    flags = COMMON + (BCF if kind == 'bc' else NATF) + list(defs) + INC
    if src.endswith('rtlib.cpp'): flags = flags + ['-fno-builtin']
    key = hashlib.sha1(json.dumps([src, flags, fhash(V + '/rt/pre.h')]).encode()).hexdigest()[:16]
    base = os.path.join(BUILD, 'obj', os.path.basename(src).replace('.cpp', '') + '-' + kind + '-' + key)
    obj = base + ('.bc' if kind == 'bc' else '.o'); meta = base + '.json'
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(f) == h for f, h in m.items()): return obj
        except ValueError: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = base + '.%d.%d' % (os.getpid(), threading.get_ident())
    r = sh(['clang++'] + flags + ['-MD', '-MF', tmp + '.d', '-o', tmp + '.o', src], timeout=max(30, deadline - time.time()))
    if r.returncode:
        raise CompileError('%s: %s' % (src, '\n'.join([l for l in r.stdout.splitlines() if 'error' in l or 'note' in l][:12]) or r.stdout[-2000:]))
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    json.dump({d: fhash(d) for d in deps}, open(tmp + '.j', 'w'))
    os.replace(tmp + '.o', obj); os.replace(tmp + '.j', meta); os.unlink(tmp + '.d')
    return obj

def sources(h):
    out = []
    for s in h.get('repo', []):
        g = sorted(glob.glob(os.path.join(REPO, 'src', s))) if any(c in s for c in '*?[') else [os.path.join(REPO, 'src', s)]
        out += [f for f in g if not any(re.search(x, f) for x in h.get('exclude', []))]
    return out

def native(bin_, params, vals, workdir, jitter=None, fill=None, tmo=20):
    fd, vf = tempfile.mkstemp(dir=workdir); os.write(fd, ''.join('%s %s\n' % (a, b) for a, b in vals).encode()); os.close(fd)
    env = {'PATH': '/usr/bin:/bin', 'GP_VALUES': vf, 'GP_PARAMS': ' '.join('%s=%s' % kv for kv in params.items()),
           'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'}
    if jitter is not None: env['GP_JITTER'] = str(jitter)
    if fill is not None: env['GP_FILL'] = str(fill)
    try:
        r = subprocess.run([bin_], env=env, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo)
        rc, o = r.returncode, r.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        rc, o = 'hang', (e.stdout or b'').decode('latin1') if e.stdout else ''
    os.unlink(vf)
    return rc, o, env

def bad(rc): return rc == 'hang' or rc not in (0, 77, 78)

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i + 1]
        if a == '--only': only = sys.argv[i + 1]
        if a == '--cfg': ONECFG.append({k: int(v) for k, v in (x.split('=') for x in sys.argv[i + 1].split(','))})
    if tier not in ('quick', 'thorough'): tier = 'quick'
    P = props.PROPS[pid]
    budget = P.get('budget', {}).get(tier, 600 if tier == 'quick' else 840)
    deadline = T0 + budget
    hs = [h for h in P['harnesses'] if tier in h.get('tiers', ('quick', 'thorough')) and (not only or only == h['name'])]
    gpse = engine()
    work = tempfile.mkdtemp(prefix='gpverif-')
    try: rc = run(pid, tier, P, hs, gpse, work, deadline)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, P, hs, gpse, work, deadline):
    pool = ThreadPoolExecutor(CPUS)
    errs = []
    futs = {}
    def want(src, defs, kind):
        k = (src, tuple(defs), kind)
        if k not in futs: futs[k] = pool.submit(compile1, src, defs, kind, deadline)
        return futs[k]
    for kind in ('bc', 'nat'):
        for h in hs:
            defs = h.get('defs', []) + ['-I' + REPO + '/src/' + x for x in h.get('inc', [])]
            h['srcs'] = [os.path.join(V, 'harness', h['src'])] + [os.path.join(V, 'rt', s) for s in h.get('rt', [])] + sources(h)
            h['f_' + kind] = [want(s, defs, kind) for s in h['srcs']] + [want(os.path.join(V, 'rt', 'rtlib.cpp' if kind == 'bc' else 'native.cpp'), [], kind)]
    jobs = []
    for h in hs:
        try: bcs = [f.result() for f in h['f_bc']]
        except CompileError as e: errs.append(str(e)); continue
        out = os.path.join(work, h['name'] + '.bc')
        r = sh([LL + 'llvm-link', '-o', out] + bcs)
        if r.returncode: errs.append('link %s: %s' % (h['name'], r.stdout[-1500:])); continue
        h['bc'] = out
        if os.environ.get('GP_KEEP'): shutil.copy(out, os.environ['GP_KEEP'])
        cfgs = h.get('cfg', {}).get(tier) or h.get('cfg', {}).get('quick') or [{}]
        for c in ONECFG or cfgs: jobs.append((h, c))
    jobs.sort(key=lambda j: -j[0].get('weight', 1))
    results = []
    def runjob(j):
        h, c = j
        left = deadline - time.time() - 45
        if left < 5: return (h, c, None, 'no time left')
        lim = min(left, h.get('time', {}).get(tier, 1e9))
        o = os.path.join(work, 'o%d.json' % len(os.listdir(work)) + hashlib.sha1((h['name'] + json.dumps(c, sort_keys=True)).encode()).hexdigest()[:8])
        cmd = ['prlimit', '--as=%d' % (h.get('mem', 6) << 30), gpse, '-o', o, '--time', '%.0f' % lim] + h.get('opts', [])
        for k, v in c.items(): cmd += ['-p', '%s=%s' % (k, v)]
        try: r = sh(cmd + [h['bc']], timeout=lim + 30)
        except subprocess.TimeoutExpired: return (h, c, None, 'engine timed out')
        if r.returncode or not os.path.exists(o): return (h, c, None, 'engine failed: ' + r.stdout[-600:])
        return (h, c, json.load(open(o)), r.stdout[-600:])
    if not errs: results = list(pool.map(runjob, jobs))
    # native builds
    bins = {}
    for h in hs:
        if errs: break
        try: objs = [f.result() for f in h['f_nat']]
        except CompileError as e: errs.append('native ' + str(e)); continue
        b = os.path.join(work, h['name'] + '.nat')
        lk = ['clang++', '-fsanitize=address', '-Wl,--no-demangle', '-o', b] + objs + h.get('ldflags', [])
        r = sh(lk)
        if r.returncode and h.get('stub'): # parts of the repository outside the harness: a call of them traps
            und_ = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout))); st = os.path.join(work, h['name'] + '.stub.s')
            open(st, 'w').write('.text\n' + ''.join('.globl "%s"\n"%s": ud2\n.skip 64\n' % (x, x) for x in und_) + '.section .note.GNU-stack,"",@progbits\n')
            r = sh(lk + [st])
        if r.returncode: errs.append('native link %s: %s' % (h['name'], r.stdout[-1500:])); continue
        bins[h['name']] = b
        if os.environ.get('GP_KEEP'): shutil.copy(bins[h['name']], os.environ['GP_KEEP'] + '.nat')
    if errs:
        for e in errs: log('ERROR', e)
        return 2
    known = json.load(open(os.path.join(V, 'known_findings.json'))) if os.path.exists(os.path.join(V, 'known_findings.json')) else {'findings': []}
    kn = [f for f in known['findings'] if f['property'] == pid and f.get('status') == 'known']
    tot = dict(paths=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks_proved=0, checks_trivial=0, algebraic=0, algebraic_s=0.0, sampled=0)
    funcs = {}; und = []; viol = []; validated = 0; disagree = []; samples = []; hinfo = []; assumptions = set(P.get('assumptions', [])); nwd = os.path.join(work, 'nat'); os.makedirs(nwd, exist_ok=True)
    cov = {}
    for h, c, d, msg in results:
        name = h['name'] + (' ' + ' '.join('%s=%s' % kv for kv in c.items()) if c else '')
        if '-v' in sys.argv and d: log('%-60s %7d paths %8.1f s' % (name, d['paths'], d['wall_s']))
        if d is None: und.append('%s: %s' % (name, msg)); continue
        for k in tot: tot[k] += d[k]
        for f, n in d['functions'].items():
            f = f.replace(REPO + '/src/', '').replace('gridpack/', '', 1) if f.startswith(REPO) else f
            funcs[f] = funcs.get(f, 0) + n
        cov.setdefault(h['name'], set()).update(d['covers'])
        ended = int(d['ends'].get('complete', 0))
        hinfo.append({'harness': name, 'paths': int(d['paths']), 'completed': ended, 'checks': d['checks'], 'queries': int(d['queries']), 'solver_s': round(d['solver_s'], 2), 'wall_s': round(d['wall_s'], 2), 'bounds': h.get('bounds', '')})
        if not ended: und.append('%s: no path ran to completion' % name)
        if d['timed_out']: und.append('%s: time limit, %d states unexplored' % (name, d['abandoned']))
        for k, n in d['incomplete'].items(): und.append('%s: %d paths not followed: %s' % (name, n, k[:300]))
        if d['unknown_checks']: und.append('%s: %d checks undecided by the solver' % (name, d['unknown_checks']))
        for k in d['div_assume']: assumptions.add('divisor non-zero at ' + re.sub(r'\S*/(repo|verif)/', '', k.split(' <- ')[0]))
        for v in d['violations']:
            viol.append((h, c, name, v))
        for ps in d['path_samples']: samples.append((h, c, name, ps))
    for h in hs:
        miss = set(h.get('covers', [])) - cov.get(h['name'], set())
        if miss: und.append('%s: reachability witnesses not reached: %s' % (h['name'], ', '.join(sorted(miss))))
    # replay
    repro = []; unrepro = []
    def replay(t):
        h, c, name, v = t
        for s in v['samples']:
            tries = [(None, None), (None, 165), (None, 255), (None, 0)] + [(j, None) for j in range(1, 25)]
            for jit, fill in tries:
                rc, o, env = native(bins[h['name']], c, s['values'], nwd, jit, fill, 60 if v['kind'] == 'hang' and jit is None else 20)
                if bad(rc): return (t, s, jit, fill, rc, o)
                if v['kind'] == 'hang' and jit: break
        return (t, None, None, None, None, None)
    seen = set(); vv = []
    for t in viol:
        k = (t[0]['name'], t[3]['key'])
        if k in seen and len(vv) > 40: continue
        seen.add(k); vv.append(t)
    for t, s, jit, fill, rc, o in pool.map(replay, vv):
        (repro if s is not None else unrepro).append((t, s, jit, fill, rc, o))
    def val(t):
        h, c, name, ps = t
        rc, o, env = native(bins[h['name']], c, ps, nwd)
        return t, rc, o
    for t, rc, o in pool.map(val, samples):
        if rc == 0: validated += 1
        elif rc in (77, 78): pass
        else: disagree.append('%s: native run of an explored path ended %s: %s' % (t[2], rc, (o.strip().splitlines() or [''])[-1][:200]))
    for (t, s, jit, fill, rc, o) in unrepro:
        und.append('%s: %s (count %d) not reproduced natively, at %s' % (t[2], t[3]['key'], t[3]['count'], t[3]['samples'][0]['where'][:300] if t[3]['samples'] else '?'))
        if os.environ.get('GP_KEEP') and t[3]['samples']: print(t[3]['samples'][0]['values'])
    und += disagree
    # report
    nviol = 0; rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*')): os.unlink(f)
    shown = set()
    for (t, s, jit, fill, rc, o) in repro:
        h, c, name, v = t
        line = ([l for l in o.splitlines() if 'GP-FAIL' in l or 'ERROR: AddressSanitizer' in l or 'terminate' in l or 'what()' in l or 'Assertion' in l or 'ssertion' in l] or [str(rc)])[0]
        kf = [f for f in kn if f['harness'] == h['name'] and re.search(f['match'], v['key'] + ' ' + line)]
        if kf:
            if kf[0]['match'] not in shown: log('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what']))
            shown.add(kf[0]['match']); continue
        nviol += 1
        path = os.path.join(rdir, '%s-%d.txt' % (pid, nviol))
        with open(path, 'w') as fo:
            fo.write('property %s harness %s params %s\nviolation %s\nat %s\nnative: %s\njitter %s fill %s\nvalues:\n' % (pid, h['src'], json.dumps(c), v['key'], s['where'], line, jit, fill))
            fo.write(''.join('%s %s\n' % tuple(x) for x in s['values'])); fo.write('\nnative output:\n' + o[-4000:] + '\n')
            fo.write('\nreplay: python3 %s/tools/replay.py %s\n' % (V, path))
        if nviol <= 20:
            log('VIOLATION property=%s replay=%s' % (pid, path)); log('   %s: %s | %s' % (name, v['key'], line))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': P.get('level', 'model_checking'),
          'coverage': {'states': int(tot['paths']), 'transitions': int(tot['steps']), 'traces_validated_against_impl': validated,
                       'samples': [{'harness': t[2], 'assignment': t[3][:40]} for t in samples[:6]],
                       'exhaustive': not und, 'queries': int(tot['queries']), 'sat': int(tot['sat']), 'unsat': int(tot['unsat']), 'unknown': int(tot['unknown']),
                       'solver_s': round(tot['solver_s'], 2), 'queries_decided_by_algebraic_normal_form': int(tot['algebraic']), 'algebraic_s': round(tot['algebraic_s'], 2), 'satisfying_points_found_by_evaluation': int(tot['sampled']), 'assertions_discharged_by_solver': int(tot['checks_proved']), 'assertions_true_by_simplification': int(tot['checks_trivial']), 'forks': int(tot['forks']),
                       'harnesses': hinfo, 'functions_encoded': [k for k, n in sorted(funcs.items(), key=lambda x: -x[1])][:400], 'functions_encoded_count': len(funcs),
                       'bounds': {h['name']: h.get('bounds', '') for h in hs}, 'covers_reached': {k: sorted(v) for k, v in cov.items()}, 'undecided': und[:60], 'known_findings': sorted(shown)},
          'assumptions': sorted(assumptions)[:80], 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = V + '/evidence/.%s.%d' % (pid, os.getpid()); json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, V + '/evidence/%s.json' % pid)
    for u in und[:40]: log('UNDECIDED', u)
    log('%s %s: %d harness runs, %d paths, %d queries (%.1fs solver), %d+%d assertions, %d/%d path replays agree, %d violations, %d undecided, %.0fs' % (
        pid, tier, len(results), tot['paths'], tot['queries'], tot['solver_s'], tot['checks_proved'], tot['checks_trivial'], validated, len(samples), nviol, len(und), time.time() - T0))
    return 1 if nviol else 0

if __name__ == '__main__': main()
