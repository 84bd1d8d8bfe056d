#!/usr/bin/env python3
"""Runs one property's check: builds the library from /repo's working tree with instrumentation,
runs its driver's cases in parallel, turns monitor reports into violations, writes the evidence.
usage: run.py ID [--tier quick|thorough] [--seed N] [--case N] | run.py --setup"""
import os, sys, json, time, hashlib, subprocess, re, glob, struct, threading, queue, resource, shutil, traceback
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
JOBS = max(2, min(16, os.cpu_count() or 8))

SAN = '-fsanitize=address,undefined -fno-sanitize=alignment,vptr,object-size -fno-sanitize-recover=all'.split()
VARIANTS = {
    'asan': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer'] + SAN,
    'tsan': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['clang++', '-O0', '-g1'],
}
# per property: runs = list of (driver, variant, extra options)
CFG = {}
def cfg(pid, runs=None, level='exploration', **k):
    CFG[pid] = dict(runs=runs or [dict(driver=pid, variant='asan')], level=level, **k)
for i in range(1, 37):
    cfg('C%02d' % i)
CFG['C06']['runs'] = [dict(driver='C06', variant='asan'), dict(driver='C06', variant='plain'), dict(driver='C06', variant='plain', valgrind=True, cases={'quick': 400, 'thorough': 20000})]
CFG['C27']['runs'] = [dict(driver='C27', variant='tsan', jobs=2, per=3, limit=60, wall=120, stop=4)]
CFG['C19']['runs'] = [dict(driver='C19', variant='asan', limit=60)]   # groups of 65535 images
CFG['C36']['runs'] = [dict(driver='C36', variant='asan', samples=True, limit=15, stop=6)]
CFG['C31']['level'] = 'fault_enumeration'
WALL = {'quick': 420, 'thorough': 7200}

class HarnessError(Exception): pass

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def deps_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build(driver, variant, samples=False):
    flags = VARIANTS[variant]
    lib = os.path.join(REPO, 'src', 'pe_lib')
    lib_src = sorted(glob.glob(lib + '/*.cpp')); lib_hdr = sorted(glob.glob(lib + '/*.h'))
    if not lib_src: raise HarnessError('no library sources in ' + lib)
    own_hdr = sorted(glob.glob(V + '/src/*.h'))
    own_src = sorted(glob.glob(V + '/src/*.cpp')) + [V + '/src/drivers/%s.cpp' % driver]
    out = os.path.join(BUILD, variant); os.makedirs(out, exist_ok=True)
    hh = deps_hash(lib_hdr); oh = deps_hash(own_hdr)
    jobs = []
    for s in lib_src:
        k = hashlib.sha256((hh + ' '.join(flags)).encode() + open(s, 'rb').read()).hexdigest()[:24]
        jobs.append((s, os.path.join(out, os.path.basename(s) + '.' + k + '.o'), ['-std=c++11', '-w']))
    for s in own_src:
        k = hashlib.sha256((hh + oh + ' '.join(flags)).encode() + open(s, 'rb').read()).hexdigest()[:24]
        jobs.append((s, os.path.join(out, os.path.basename(s) + '.' + k + '.o'), ['-std=c++17', '-Wall', '-Wno-unused-function', '-Wno-sign-compare', '-Wno-address-of-packed-member', '-I' + os.path.join(REPO, 'src')]))
    for s in sorted(glob.glob(os.path.join(REPO, 'src', 'samples', '*', 'main.cpp'))) if samples else []:   # as they are, main renamed
        n = os.path.basename(os.path.dirname(s)); own = ''.join(deps_hash([x]) for x in sorted(glob.glob(os.path.dirname(s) + '/*.h')))
        k = hashlib.sha256((hh + own + ' '.join(flags)).encode() + open(s, 'rb').read()).hexdigest()[:24]
        jobs.append((s, os.path.join(out, 'sample_' + n + '.' + k + '.o'), ['-std=c++11', '-w', '-Dmain=sample_%s_main' % n, '-I' + lib, '-I' + os.path.dirname(s)]))
    errs = []
    # start the slowest first
    todo = queue.Queue()
    for j in sorted(jobs, key=lambda j: -os.path.getsize(j[0])): todo.put(j)
    def work():
        while True:
            try: s, o, fl = todo.get_nowait()
            except queue.Empty: return
            if os.path.exists(o): continue
            t = o + '.%d.%d' % (os.getpid(), threading.get_ident())
            r = sh(flags + fl + ['-c', s, '-o', t])
            if r.returncode: errs.append(s + ':\n' + r.stdout.decode(errors='replace')[:4000])
            else: os.rename(t, o)
    th = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in th]; [t.join() for t in th]
    if errs: raise HarnessError('compilation failed\n' + '\n'.join(errs))
    objs = [o for _, o, _ in jobs]
    exe = os.path.join(out, driver + '.' + hashlib.sha256('|'.join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        t = exe + '.%d' % os.getpid()
        r = sh(flags + objs + ['-o', t, '-Wl,--wrap=iconv_open,--wrap=iconv_close', '-lpthread'] + (['-Wl,--allow-multiple-definition'] if variant == 'tsan' else []))
        if r.returncode: raise HarnessError('link failed\n' + r.stdout.decode(errors='replace')[:4000])
        os.rename(t, exe)
    for o in glob.glob(out + '/' + driver + '*'):   # drop stale builds of this driver
        if o != exe and o not in objs:
            try: os.unlink(o)
            except OSError: pass
    return exe

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))

def env():
    e = dict(os.environ)
    e['VERIF_REPO'] = REPO
    sym = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18')
    s = ':external_symbolizer_path=' + sym if sym else ''
    e['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=0:allocator_may_return_null=1:malloc_context_size=8:detect_stack_use_after_return=0:quarantine_size_mb=32:max_allocation_size_mb=2048:handle_abort=1' + s
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98' + s
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:second_deadlock_stack=1' + s
    e['LC_ALL'] = 'C.UTF-8'
    return e

def crash_key(log):
    m = re.search(r'SUMMARY: (\w+Sanitizer): (\S+) (.*)', log)
    if m:
        kind = m.group(2); fn = ''
        if ' in ' in m.group(3): fn = m.group(3).split(' in ', 1)[1].strip()
        # first frame inside the library names the place best
        f = re.search(r'#\d+ 0x[0-9a-f]+ in (pe_bliss::[^\n]*?)(?:\(| /|\s/|$)', log)
        if f: fn = f.group(1)
        fn = re.sub(r'\(.*', '', re.sub(r'<.*>', '', fn))
        if 'undefined-behavior' in kind:
            r = re.search(r'runtime error: ([^\n]*)', log)
            if r: kind = 'ub-' + re.sub(r'[^a-z ]+', '', re.sub(r"'[^']*'", '', re.sub(r'-?\d+', '', r.group(1)))).strip().replace('  ', ' ').replace(' ', '-')[:60]
        return '%s@%s' % (kind, fn)
    if 'HARNESS-HANG' in log: return 'hang'
    if 'Invalid read' in log or 'uninitialised' in log: return 'valgrind'
    return 'crash'

def frames(log):
    return [l.strip() for l in log.split('\n') if re.match(r'\s*#\d+ ', l)][:6]

class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time(); self.viol = []; self.counts = {}; self.samples = []; self.hashes = set(); self.ran = 0
        self.lock = threading.Lock(); self.stop = False; self.harness = []; self.truncated = False; self.rule = ''; self.runs = []
        self.tmp = os.path.join(BUILD, 'run.%s.%d' % (pid, os.getpid())); os.makedirs(self.tmp, exist_ok=True)
        self.rep = os.path.join(V, 'replay', pid); os.makedirs(self.rep, exist_ok=True)

    def add(self, run, case, key, msg, log='', inp=''):
        with self.lock:
            n = len([v for v in self.viol if v['key'] == key])
            v = dict(key=key, msg=msg, case=case, run=run['driver'] + '/' + run['variant'])
            if n < 3:
                path = os.path.join(self.rep, '%s-%s-%d.json' % (re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:80], run['variant'], case))
                json.dump(dict(property=self.pid, driver=run['driver'], variant=run['variant'], seed=self.seed, tier=self.tier, case=case, key=key, message=msg,
                    input=inp, log=log[-12000:], reproduce='python3 %s/run.py %s --tier %s --seed %d --case %d' % (V, self.pid, self.tier, self.seed, case)), open(path, 'w'), indent=1)
                v['path'] = path
            self.viol.append(v)
            unl = len([x for x in self.viol if not known(self.pid, x['key'])])
            if unl >= run.get('stop', 40): self.stop = True

    def chunk(self, run, exe, a, b, wid):
        """runs cases [a,b); restarts after a crash"""
        while a < b and not self.stop:
            if time.time() - self.t0 > WALL[self.tier]: self.truncated = True; return
            base = os.path.join(self.tmp, '%s.%d.%d' % (run['variant'], wid, a))
            out, prog, hs, log = base + '.out', base + '.prog', base + '.hash', base + '.log'
            lim = run.get('limit', 20)
            cmd = [exe, '--seed', str(self.seed), '--tier', self.tier, '--from', str(a), '--to', str(b), '--out', out, '--prog', prog, '--hashes', hs,
                   '--replay', os.path.join(self.rep, run['driver']), '--limit', str(lim)]
            if run.get('valgrind'): cmd = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--track-origins=no', '--leak-check=no', '--show-mismatched-frees=no', '--undef-value-errors=yes', '--num-callers=20'] + cmd
            timeout = run.get('wall') or max(60, WALL[self.tier] - (time.time() - self.t0) + 120)
            with open(log, 'wb') as lf:
                try: rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env(), preexec_fn=limits, timeout=timeout, cwd=self.tmp).returncode
                except subprocess.TimeoutExpired: rc = 'timeout'
            text = open(log, errors='replace').read()
            ended = False; last = a - 1
            if os.path.exists(out):
                for l in open(out, errors='replace'):
                    try: j = json.loads(l)
                    except ValueError: continue
                    if j['t'] == 'v':
                        if j['key'].startswith('harness'): self.harness.append('case %d: %s' % (j['case'], j['msg'])); self.stop = True
                        else: self.add(run, j['case'], j['key'], j['msg'], '', j.get('input', ''))
                    else:
                        ended = True
                        with self.lock:
                            self.ran += j['ran']
                            for k, n in j['counts'].items(): self.counts[k] = self.counts.get(k, 0) + n
                            if len(self.samples) < 6: self.samples += j['samples'][:2]
            if os.path.exists(hs):
                d = open(hs, 'rb').read()
                with self.lock: self.hashes.update(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
            pv = None
            if os.path.exists(prog):
                d = open(prog, 'rb').read()
                if len(d) == 8: pv = struct.unpack('<Q', d)[0]
            for p in (out, prog, hs, log):
                if os.path.exists(p): os.unlink(p)
            if ended and rc == 0: return
            if ended and rc == 66:   # race reports
                key = crash_key(text)
                self.add(run, a, 'race ' + key, 'data race reported by ThreadSanitizer', text); return
            if rc == 'timeout' and run.get('wall'):   # threads waiting for each other use no CPU time
                c2 = [exe, '--seed', str(self.seed), '--tier', self.tier, '--from', str(a), '--to', str(b), '--out', os.devnull, '--limit', str(lim)]
                try: r2 = subprocess.run(c2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), preexec_fn=limits, cwd=self.tmp, timeout=2 * timeout).returncode; self.counts['slow-chunks'] = self.counts.get('slow-chunks', 0) + 1
                except subprocess.TimeoutExpired: self.add(run, a, 'deadlock', 'cases [%d,%d) did not finish within %d s, twice (normal cases take a fraction of a second)' % (a, b, timeout), text)
                return
            if rc == 'timeout':
                self.harness.append('cases [%d,%d) did not finish in time (at case %s)' % (a, b, pv)); return
            if pv is None or pv >= 2**63 or pv < a or pv >= b:
                self.harness.append('driver failed outside a case (rc %s): %s' % (rc, text[-1500:])); self.stop = True; return
            key = crash_key(text)
            if rc == 77 or key == 'hang':
                # confirm alone, with twice the limit
                c2 = [exe, '--seed', str(self.seed), '--tier', self.tier, '--from', str(pv), '--to', str(pv + 1), '--out', os.devnull, '--limit', str(2 * lim)]
                r2 = subprocess.run(c2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), preexec_fn=limits, cwd=self.tmp)
                if r2.returncode == 77: self.add(run, pv, 'hang', 'case exceeded %d s of CPU time (normal cases take milliseconds)' % (2 * lim), text)
                else: self.counts['slow-cases'] = self.counts.get('slow-cases', 0) + 1
            elif rc in (-9,) :
                self.harness.append('driver was killed at case %d (memory?)' % pv)
            else:
                msg = 'process ended with status %s: %s' % (rc, key)
                m = re.search(r'(runtime error: [^\n]*|ERROR: [^\n]*)', text)
                if m: msg += ' -- ' + m.group(1)[:300]
                self.add(run, pv, key, msg + ' ' + ' | '.join(frames(text))[:600], text)
            self.ran += pv - a + 1
            a = pv + 1

    def run(self, only=None):
        c = CFG[self.pid]
        for run in c['runs']:
            exe = build(run['driver'], run['variant'], run.get('samples', False))
            self.build_s = time.time() - self.t0
            info = json.loads(subprocess.run([exe, '--tier', self.tier, '--info'], stdout=subprocess.PIPE, env=env()).stdout)
            self.rule = self.rule or info['rule']
            n = info['cases']
            if run.get('valgrind'): n = min(n, run.get('cases', {'quick': 48, 'thorough': 1500})[self.tier])
            lo, hi = (0, n) if only is None else (only, only + 1)
            jobs = run.get('jobs', JOBS)
            per = max(1, min(2000, (hi - lo + jobs * 6 - 1) // (jobs * 6)))
            per = run.get('per', per)
            q = queue.Queue()
            for w, a in enumerate(range(lo, hi, per)): q.put((w, a, min(hi, a + per)))
            def work():
                while not self.stop:
                    try: w, a, b = q.get_nowait()
                    except queue.Empty: return
                    self.chunk(run, exe, a, b, w)
            r0 = self.ran
            th = [threading.Thread(target=work) for _ in range(jobs)]
            [t.start() for t in th]; [t.join() for t in th]
            self.runs.append(dict(driver=run['driver'], instrumentation=run['variant'] + ('+valgrind' if run.get('valgrind') else ''), cases=self.ran - r0, of=n))

_known = None
def load_known():
    global _known
    if _known is None:
        _known = []
        p = os.path.join(V, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) \| (.*)', l.strip())
                if m: _known.append(m.groups())
    return _known
def known(pid, key):
    for p, k, d in load_known():
        if p == pid and k == key.replace(' ', '_'): return d
    return None

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        for v in ('asan',): build('C03', v)
        return 0
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); only = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]
        elif a[i] == '--seed': seed = int(a[i + 1])
        elif a[i] == '--case': only = int(a[i + 1])
        i += 2
    if tier not in WALL: tier = 'quick'
    r = Runner(pid, tier, seed)
    rc = 0
    try:
        try: r.run(only)
        except HarnessError as e: r.harness.append(str(e))
        bad = [v for v in r.viol if not known(pid, v['key'])]
        seen = {}
        for v in r.viol:
            d = known(pid, v['key'])
            if d and v['key'] not in seen: print('KNOWN-FINDING: property=%s %s' % (pid, d)); seen[v['key']] = 1
        for v in bad:
            if v['key'] in seen: continue
            seen[v['key']] = 1
            print('VIOLATION property=%s replay=%s' % (pid, v.get('path')))
            print('  %s (case %d, %s): %s' % (v['key'], v['case'], v['run'], v['msg'][:1500]))
        wall = time.time() - r.t0
        cov = dict(evaluations=r.ran, distinct_nontrivial=len(r.hashes), rule=r.rule, samples=r.samples[:4], observed=r.counts, runs=r.runs,
                   stopped_early=r.truncated or r.stop)
        ev = dict(property=pid, tier=tier, seed=seed, level=CFG[pid]['level'], coverage=cov, wall_s=round(wall, 2), violations=len(bad),
                  assumptions=['the compiled program is what clang 18 produces from /repo at -O1 with the named instrumentation', 'misaligned access and vptr checks are off (DESIGN.md)'])
        if only is None:
            os.makedirs(V + '/evidence', exist_ok=True)
            json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations (%d kinds), %.1f s' % (pid, tier, seed, r.ran, len(r.hashes), len(bad), len(set(v['key'] for v in bad)), wall))
        if bad: rc = 1
        elif r.harness:
            print('HARNESS ERROR:', '\n'.join(r.harness)[:4000]); rc = 2
        elif only is None and (r.ran == 0 or not r.hashes): print('HARNESS ERROR: nothing was evaluated'); rc = 2
        if r.harness and bad: print('also harness errors:', '\n'.join(r.harness)[:1500])
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    return rc
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
