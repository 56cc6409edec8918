"""Build/run/report plumbing shared by all checks.

Outcome discipline:
  exit 0  property held on everything that was observed (and enough was observed)
  exit 1  a VIOLATION line was printed for an observation not listed in known-findings.txt
  exit 3  the check itself could not decide (build failure, internal error, unreproducible hang, ...)
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MON = os.path.join(VERIF, 'mon')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = max(1, min(16, os.cpu_count() or 8))
THOROUGH = TIER == 'thorough'

BASE = ['-std=c++17', '-I' + REPO, '-I' + MON, '-pthread']
VARIANTS = {
    # name: (compiler, flags)
    'gcc64':   ('g++', ['-O2']),
    'gcc64r':  ('g++', ['-O3', '-DNDEBUG']),
    'gcc64o1': ('g++', ['-O1']),
    'gcc64o0': ('g++', ['-O0']),
    'clang64': ('clang++', ['-O2']),
    'clang64r': ('clang++', ['-O3', '-DNDEBUG']),
    'gcc32':   ('g++', ['-m32', '-msse2', '-mfpmath=sse', '-O2']),
    'gcc32r':  ('g++', ['-m32', '-msse2', '-mfpmath=sse', '-O3', '-DNDEBUG']),
    'clang32r': ('clang++', ['-m32', '-msse2', '-O2', '-DNDEBUG']),
    'gcc32x87': ('g++', ['-m32', '-mfpmath=387', '-O1']),
    'gcc64v3': ('g++', ['-O3', '-march=x86-64-v3']),
    'gcc64w': ('g++', ['-std=c++20', '-Os', '-fwrapv', '-fno-strict-aliasing', '-funsigned-char']),
    'asan':    ('clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'gccsan':  ('g++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'ubsan32': ('clang++', ['-m32', '-msse2', '-O1', '-g1', '-fsanitize=undefined', '-fno-sanitize-recover=all']),
    'tsan':    ('clang++', ['-O1', '-g1', '-fsanitize=thread']),
    'fuzz':    ('clang++', ['-O1', '-DNDEBUG', '-fsanitize=fuzzer-no-link']),
    'fuzzsan': ('clang++', ['-O1', '-g1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all']),
    'msan':    ('clang++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fno-sanitize-recover=all']),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_stack_use_after_return=1:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'abort_on_error=1:print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=66:handle_segv=0:second_deadlock_stack=1',
    'MSAN_OPTIONS': 'abort_on_error=1:handle_segv=0:handle_abort=0',
}

class CheckError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif-run-', dir='/tmp')
    return _tmp
def cleanup():
    if _tmp and os.path.isdir(_tmp):
        shutil.rmtree(_tmp, ignore_errors=True)

class Job:
    """One translation unit to compile."""
    def __init__(self, src, defs=(), flags=(), name=None, optional=False):
        self.src, self.defs, self.flags, self.name, self.optional = src, list(defs), list(flags), name, optional

_n = 0
def _compile(variant, job):
    global _n
    cc, vf = VARIANTS[variant]
    _n += 1
    obj = os.path.join(tmpdir(), '%s-%s-%d.o' % (variant, job.name or os.path.basename(job.src).split('.')[0], _n))
    cmd = [cc] + BASE + vf + job.flags + ['-D' + d for d in job.defs] + ['-c', job.src, '-o', obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    return job, obj, p.returncode, ' '.join(cmd), p.stdout

def build(programs, optional=()):
    """programs: {exe: (variant, [Job])} -> {exe: path}; all units compile in parallel.
    A program named in `optional` that does not build is left out (and listed in _failed)."""
    failed = {}
    t0 = time.time()
    objs = {e: [] for e in programs}
    missing = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        futs = []
        for e, (variant, jobs) in programs.items():
            for j in jobs:
                futs.append((e, ex.submit(_compile, variant, j)))
        for e, f in futs:
            job, obj, rc, cmd, out = f.result()
            if rc:
                if job.optional:
                    missing.setdefault(e, []).append((job, out))
                    continue
                if e in optional:
                    failed[e] = cmd + '\n' + out[-1500:]
                    continue
                raise CheckError('cannot compile: %s\n%s' % (cmd, out[-4000:]))
            objs[e].append(obj)
    exes = {}
    def link(e):
        variant = programs[e][0]
        cc, vf = VARIANTS[variant]
        exe = os.path.join(tmpdir(), e)
        if variant.startswith('fuzz'):
            vf = ['-fsanitize=fuzzer' + (',address,undefined' if variant == 'fuzzsan' else '')]
        p = subprocess.run([cc] + BASE + vf + objs[e] + ['-o', exe, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError('cannot link %s\n%s' % (e, p.stdout[-3000:]))
        return e, exe
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for e, exe in ex.map(link, [e for e in programs if e not in failed]):
            exes[e] = exe
    exes['_missing'] = missing
    exes['_failed'] = failed
    exes['_build_s'] = round(time.time() - t0, 1)
    if os.environ.get('VERIF_TRACE'):
        print('# build %.1f s' % (time.time() - t0))
    return exes

def src(name):
    return os.path.join(MON, name)

def fp_src():
    """The string writer's translation unit; a unity file when the directory holds several."""
    d = os.path.join(REPO, 'fp_to_chars')
    cpps = sorted(f for f in os.listdir(d) if f.endswith('.cpp'))
    if len(cpps) == 1:
        return os.path.join(d, cpps[0])
    u = os.path.join(tmpdir(), 'fp_unity.cpp')
    with open(u, 'w') as f:
        f.writelines('#include "%s"\n' % os.path.join(d, c) for c in cpps)
    return u

# mode indices of conv.hpp
M = {n: i for i, n in enumerate(['nte', 'nto', 'ntpi', 'ntmi', 'ntz', 'nafz', 'nte_sb', 'nto_sb', 'ntpi_sb', 'ntmi_sb', 'tpi', 'tmi', 'tz', 'afz', 'default'])}
def mask(ms):
    r = 0
    for m in ms:
        r |= 1 << (M[m] if isinstance(m, str) else m)
    return '0x%x' % r

def tab_jobs(groups, crs='0x1f', signs=3, strs=0, types=('float', 'double')):
    """One conv_tab.cpp unit per (type, group of modes)."""
    r = []
    for t in types:
        for g in groups:
            r.append(Job(src('conv_tab.cpp'), ['TAB_TYPE=' + t, 'TAB_MODES=' + mask(g), 'TAB_CRS=' + crs, 'TAB_SIGNS=%d' % signs, 'TAB_STR=%d' % strs], name='tab_%s_%s' % (t, g[0])))
    return r

class Result:
    def __init__(self):
        self.stats, self.bad, self.samples, self.fatal, self.digests, self.out, self.err, self.rc = {}, [], [], None, {}, '', '', None
        self.internal, self.done, self.rows, self.timeout = None, False, [], False

T_START = time.time()
def run(cmd, timeout=None, env=None, keep=False):
    if timeout is None:
        # leave time to report what was seen before a quick check is stopped from outside
        timeout = 6 * 3600 if THOROUGH else max(40, 800 - (time.time() - T_START))
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    r = Result()
    r.cmd = cmd
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, start_new_session=True, cwd=tmpdir())
    try:
        r.out, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.wall = time.time() - t0
    for l in r.out.splitlines():
        w = l.split(' ', 1)
        if w[0] == 'STAT':
            k, v = w[1].rsplit(' ', 1)
            r.stats[k] = r.stats.get(k, 0) + int(v)
        elif w[0] == 'BAD':
            r.bad.append(w[1])
        elif w[0] == 'SAMPLE':
            r.samples.append(w[1])
        elif w[0] == 'FATAL':
            r.fatal = w[1]
        elif w[0] == 'INTERNAL':
            r.internal = l
        elif w[0] == 'DIGEST':
            k, v = w[1].rsplit(' ', 1)
            r.digests[k] = v
        elif w[0] == 'ROW':
            r.rows.append(w[1])
        elif w[0] == 'DONE':
            r.done = True
    return r

def run_many(cmds, **kw):
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda c: run(c, **kw), cmds))

def split_list(path, n):
    """path.f / path.d -> path.f.0 .. (8-byte records dealt round robin)"""
    import array
    for s in ('.f', '.d'):
        a = array.array('Q')
        with open(path + s, 'rb') as f:
            a.frombytes(f.read())
        for i in range(n):
            with open('%s%s.%d' % (path, s, i), 'wb') as f:
                a[i::n].tofile(f)

def fuzz(exe, seconds, out):
    """Coverage- and comparison-guided search with NCPU independent libFuzzer processes; the bit patterns of
    the corpora (and of inputs that crashed) are written to out.f / out.d.  Returns statistics."""
    import array, glob, struct
    st = {'fuzz_executions': 0, 'fuzz_edges': 0}
    def go(i):
        d = os.path.join(tmpdir(), 'corpus%d' % i)
        os.makedirs(d, exist_ok=True)
        cmd = [exe, '-seed=%d' % (SEED * 64 + i + 1), '-use_value_profile=1', '-max_total_time=%d' % seconds, '-max_len=9', '-len_control=0',
               '-reload=0', '-print_final_stats=1', '-timeout=10', '-artifact_prefix=%s/crash-' % d, d]
        try:
            return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=seconds * 3 + 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), cwd=tmpdir()).stderr
        except subprocess.TimeoutExpired:
            return ''
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(go, range(NCPU)):
            m = re.search(r'number_of_executed_units: (\d+)', e)
            st['fuzz_executions'] += int(m.group(1)) if m else 0
            m = re.findall(r'cov: (\d+) ft: (\d+)', e)
            if m:
                st['fuzz_edges'] = max(st['fuzz_edges'], int(m[-1][0]))
    vals = [set(), set()]
    for p in glob.glob(os.path.join(tmpdir(), 'corpus*', '*')):
        with open(p, 'rb') as f:
            b = f.read(9)
        if len(b) == 9 and b[0] & 1:
            vals[1].add(struct.unpack('<Q', b[1:])[0] & (2**63 - 1))
        if len(b) >= 5 and not b[0] & 1:
            vals[0].add(struct.unpack('<I', b[1:5])[0] & (2**31 - 1))
    for s, v, lim in (('.f', vals[0], 0x7f800000), ('.d', vals[1], 0x7ff0000000000000)):
        v = sorted(x for x in v if 0 < x < lim)
        st['fuzz_kept' + s[1:].replace('f', '_floats').replace('d', '_doubles')] = len(v)
        with open(out + s, 'wb') as f:
            array.array('Q', v).tofile(f)
    return st

def kv(text):
    return dict(x.split('=', 1) for x in text.split() if '=' in x)

class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.stats, self.samples, self.runs, self.viol, self.notes = {}, [], [], [], []
        self.evals = 0
        self.nontriv = 0
        self.exhaustive = None
        self.extra = {}
        self.known_hit = []

    # ---- accounting
    def add(self, label, r, evals='evaluations', nontriv='distinct_nontrivial'):
        if os.environ.get('VERIF_TRACE'):
            print('# %s %.1f s' % (label, r.wall))
        self.runs.append({'run': label, 'wall_s': round(r.wall, 1), 'observed': dict(r.stats)})
        self.evals += r.stats.get(evals, 0)
        self.nontriv += r.stats.get(nontriv, 0)
        for s in r.samples[:3]:
            if len(self.samples) < 12:
                self.samples.append(label + ': ' + s)

    # ---- violations
    def violation(self, key, detail, replay):
        """key identifies the failing input/call site/history (matched against known-findings.txt)."""
        for k in known_findings():
            if k['property'] == self.pid and k['key'] == key:
                self.known_hit.append(k)
                return
        self.viol.append({'key': key, 'detail': detail, 'replay': replay})

    def judge(self, label, r, exe, one, replay):
        """Digest the result of a monitor run.  one(kv)->argv for replaying a single input."""
        if r.internal:
            raise CheckError('%s: %s' % (label, r.internal))
        # BAD lines are final verdicts, however the run ended after them
        for b in r.bad:
            f = kv(b)
            key = ' '.join('%s=%s' % (k, f[k]) for k in ('type', 'bits', 'mode', 'policy') if k in f) or b
            self.violation(key, label + ': ' + b, dict(replay, argv=one(f)))
        if self.viol and (r.timeout or r.fatal):
            return
        if r.fatal:
            f = kv(r.fatal)
            what = r.fatal.split()[0]
            if f.get('outside') == '1':
                r2 = run(r.cmd)
                if r2.fatal and kv(r2.fatal).get('outside') == '1' and self.san_report(r2):
                    self.violation('sanitizer ' + self.san_report(r2)[:120], self.san_report(r2), dict(replay, argv=r.cmd[1:]))
                    return
                if not r2.fatal and r2.done:
                    raise CheckError('%s: died once outside a monitored call, not reproducible: %s' % (label, r.err[-800:]))
                raise CheckError('%s: died outside a monitored call: %s' % (label, (r.fatal + '\n' + r.err)[-1500:]))
            argv = one(f)
            ok = False
            for _ in range(2):
                r2 = run([exe] + argv, timeout=60)
                if r2.timeout or r2.fatal or r2.bad or r2.rc not in (0,):
                    ok = True
                    break
            if not ok:
                # depends on history: does the same workload die again?
                r3 = run(r.cmd)
                if r3.fatal or r3.bad:
                    argv, r2, ok = r.cmd[1:], r3, True
            if not ok:
                raise CheckError('%s: %s could not be reproduced (inconclusive)' % (label, r.fatal))
            why = (self.san_report(r2) or self.san_report(r) or r2.err.strip()[-300:] or r.err.strip()[-300:])
            key = '%s %s' % (what, ' '.join('%s=%s' % (k, f[k]) for k in ('type', 'bits', 'mode', 'crs', 'kind', 'rs') if k in f))
            self.violation(key, '%s: %s :: %s' % (label, r.fatal, why), dict(replay, argv=argv))
            return
        if r.timeout and self.san_report(r):
            self.violation('sanitizer ' + self.san_report(r)[:120], label + ': ' + self.race_detail(r), dict(replay, argv=r.cmd[1:]))
            return
        if r.timeout:
            raise CheckError('%s: timed out (inconclusive)' % label)
        if r.rc not in (0, 1) or not r.done:
            rep = self.san_report(r)
            if rep:
                r2 = run(r.cmd)
                if self.san_report(r2) or 'ThreadSanitizer' in rep:
                    self.violation('sanitizer ' + rep[:120], label + ': ' + self.race_detail(r), dict(replay, argv=r.cmd[1:]))
                    return
            if r.rc in (-4, -5, -6, -7, -8, -11) and run(r.cmd).rc == r.rc:
                self.violation('signal %d in %s' % (-r.rc, label), '%s: the workload dies by signal %d, twice' % (label, -r.rc), dict(replay, argv=r.cmd[1:]))
                return
            raise CheckError('%s: monitor ended with %s: %s' % (label, r.rc, (r.out[-500:] + r.err[-1500:])))
        if r.rc == 1 and not r.bad:
            raise CheckError('%s: exit 1 without report' % label)

    @staticmethod
    def race_detail(r):
        return ' | '.join(x.strip() for x in (r.err or '').splitlines() if x.strip() and '====' not in x)[:900]

    @staticmethod
    def san_report(r):
        m = re.search(r'(runtime error: .*|ERROR: \w+Sanitizer.*|WARNING: \w+Sanitizer.*|Assertion .* failed.*)', r.err or '')
        return m.group(1) if m else None

    # ---- the end
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        for k in known_findings():
            if k['property'] == self.pid and k in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': self.nontriv, 'rule': self.rule,
               'samples': self.samples or ['(none recorded)'], 'runs': self.runs}
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['held on the executions counted here; nothing is claimed about inputs not visited'] + self.notes,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if self.viol:
            path = os.path.join(EVID, 'replay-%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'how': 'python3 check.py %s --replay %s' % (self.pid, path), 'violations': self.viol[:40]}, f, indent=1)
            for v in self.viol[:6]:
                print('  ' + v['detail'])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        elif self.evals == 0 or self.nontriv == 0:
            raise CheckError('nothing was observed')
        else:
            print('OK %s: %d evaluations, %d distinct non-trivial, %.1f s' % (self.pid, self.evals, self.nontriv, time.time() - self.t0))
        return rc

_known = None
def known_findings():
    """Lines 'finding: property=<id> key=[<key>] <text>' ; lines 'fixed: ...' suppress nothing."""
    global _known
    if _known is None:
        _known = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
                if m:
                    _known.append({'property': m.group(1), 'key': m.group(2), 'text': m.group(3)})
    return _known
