"""Shared machinery of the checks: building /repo's working tree in several
variants, running harness shards, replaying, and reporting."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SRC = REPO + '/src/_booz_xform'
PYSRC = REPO + '/src/booz_xform'
BOOZPY = '/opt/boozenv/bin/python'
NPROC = os.cpu_count() or 8
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class BuildError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    roots = [SRC, PYSRC, VERIF + '/harness', VERIF + '/lib']
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            if '__pycache__' in d: continue
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.py', '.c', '.cc', '.hh', '.inc')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ['/repo/pyproject.toml', '/repo/CMakeLists.txt']:
        if os.path.exists(f): h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


_build_dir = None


def build_dir():
    """/verif/build/<hash of the sources>: the objects of any other tree are never used."""
    global _build_dir
    if _build_dir is None:
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        h = _hash_tree()
        for d in os.listdir(base):     # keep disk use bounded
            p = os.path.join(base, d)
            if d != h and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 7200:
                shutil.rmtree(p, ignore_errors=True)
        _build_dir = os.path.join(base, h)
        os.makedirs(_build_dir, exist_ok=True)
    return _build_dir


NCFLAGS = None


def nc_flags():
    global NCFLAGS
    if NCFLAGS is None:
        try:
            c = subprocess.run(['nc-config', '--cflags'], capture_output=True, text=True).stdout.split()
            l = subprocess.run(['nc-config', '--libs'], capture_output=True, text=True).stdout.split()
        except FileNotFoundError:
            c, l = [], ['-lnetcdf']
        NCFLAGS = ([x for x in c if x.startswith(('-I', '-D'))], [x for x in l if x.startswith('-l') or x.startswith('-L')] or ['-lnetcdf'])
    return NCFLAGS


def project_version():
    m = re.search(r'^version\s*=\s*"([^"]+)"', open('/repo/pyproject.toml').read(), re.M)
    return m.group(1) if m else '0'


INC = ['-I' + SRC, '-I' + REPO + '/externalPackages/eigen', '-I' + VERIF + '/harness']

VARIANTS = {
    # as the project builds it (CMake Release + OpenMP)
    'rel': dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fopenmp', '-DOPENMP', '-fPIC'], link=['-fopenmp']),
    # optimised but without the loop vectoriser's compile time, for harness code
    'asan': dict(cxx='g++', flags=['-O1', '-g', '-fopenmp', '-DOPENMP', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer',
                                   '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
                 link=['-fopenmp', '-fsanitize=address,undefined']),
    # uninitialised automatic variables have a pattern in them
    'auto': dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fopenmp', '-DOPENMP', '-fPIC', '-ftrivial-auto-var-init=pattern'], link=['-fopenmp']),
    'sched': dict(cxx='g++', flags=['-O1', '-g', '-DNDEBUG', '-fopenmp', '-DOPENMP', '-fsanitize=thread'], link=None),
    'schednt': dict(cxx='g++', flags=['-O1', '-g', '-DNDEBUG', '-fopenmp', '-DOPENMP'], link=None),
}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    return [f for f in sorted(glob.glob(SRC + '/*.cpp')) if os.path.basename(f) not in ('xbooz_xform.cpp', 'bindings.cpp')]


def _compile(job):
    cmd, out = job
    if os.path.exists(out): return None
    tmp = out + '.%d.tmp' % os.getpid()
    r = run(cmd + ['-o', tmp])
    if r.returncode != 0:
        return ' '.join(cmd) + '\n' + r.stdout
    os.rename(tmp, out)
    return None


def _pool(jobs):
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs: raise BuildError('\n'.join(errs)[:20000])


def lib_jobs(variant, extra=()):
    v = VARIANTS[variant]
    d = os.path.join(build_dir(), variant)
    os.makedirs(d, exist_ok=True)
    std = ['-std=gnu++11']
    jobs, objs = [], []
    for f in lib_sources():
        o = os.path.join(d, os.path.basename(f)[:-4] + '.o')
        jobs.append(([v['cxx'], *std, '-w', *v['flags'], '-DVERSION_INFO=' + project_version(), '-ftemplate-depth=1024',
                      *INC, *nc_flags()[0], '-c', f], o))
        objs.append(o)
    return jobs, objs


def build_harness(name, variant, sources=None, hflags=(), link_extra=(), std='gnu++17', with_lib=True):
    """Compile the library variant and harness/<sources>; link to build/<name>-<variant>."""
    v = VARIANTS[variant]
    d = os.path.join(build_dir(), variant)
    jobs, objs = lib_jobs(variant) if with_lib else ([], [])
    os.makedirs(d, exist_ok=True)
    hobjs = []
    for s in sources or [name + '.cpp']:
        s, sfl = s if isinstance(s, tuple) else (s, [])
        o = os.path.join(d, 'h_%s_%s.o' % (name, os.path.splitext(s)[0]))
        fl = [x for x in v['flags'] if x != '-DNDEBUG']
        jobs.append(([v['cxx'], '-std=' + std, '-w', *fl, '-DVERSION_INFO=' + project_version(), *hflags, *sfl, *INC, *nc_flags()[0], '-c', os.path.join(VERIF, 'harness', s)], o))
        hobjs.append(o)
    _pool(jobs)
    exe = os.path.join(build_dir(), name + '-' + variant)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = run([v['cxx'], *hobjs, *objs, *(v['link'] or []), *nc_flags()[1], '-lpthread', '-ldl', *link_extra, '-o', tmp])
        if r.returncode != 0: raise BuildError(r.stdout[:20000])
        os.rename(tmp, exe)
    return exe


def build_sched():
    wrap = ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'printf', 'fprintf', 'puts', 'putchar', 'fwrite'))
    return build_harness('sched', 'sched', ['sched.cpp', ('schedrt.cpp', ['-fno-sanitize=thread', '-O2'])], link_extra=['-Wl,' + wrap])


def build_pyext(sanitize=False):
    """A package directory (to put on PYTHONPATH) with the extension and the repo's .py files."""
    site = os.path.join(build_dir(), 'site')
    pkg = os.path.join(site, 'booz_xform')
    os.makedirs(pkg, exist_ok=True)
    suffix = run([BOOZPY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))']).stdout.strip()
    so = os.path.join(pkg, '_booz_xform' + suffix)
    if not os.path.exists(so):
        inc = run([BOOZPY, '-m', 'pybind11', '--includes']).stdout.split()
        jobs, objs = lib_jobs('rel')
        bo = os.path.join(build_dir(), 'rel', 'bindings.o')
        jobs.append((['g++', '-std=gnu++17', '-w', *VARIANTS['rel']['flags'], '-fvisibility=hidden', '-DVERSION_INFO=' + project_version(),
                      *INC, *inc, *nc_flags()[0], '-c', SRC + '/bindings.cpp'], bo))
        _pool(jobs)
        tmp = so + '.%d.tmp' % os.getpid()
        r = run(['g++', '-shared', bo, *objs, '-fopenmp', *nc_flags()[1], '-o', tmp])
        if r.returncode != 0: raise BuildError(r.stdout[:20000])
        os.rename(tmp, so)
    for f in glob.glob(PYSRC + '/*.py'):
        dst = os.path.join(pkg, os.path.basename(f))
        data = open(f, 'rb').read()
        if not os.path.exists(dst) or open(dst, 'rb').read() != data:
            with open(dst + '.tmp%d' % os.getpid(), 'wb') as g: g.write(data)
            os.rename(dst + '.tmp%d' % os.getpid(), dst)
    return site


def build_exe():
    """The C++ xbooz_xform executable."""
    exe = os.path.join(build_dir(), 'xbooz_xform')
    if not os.path.exists(exe):
        jobs, objs = lib_jobs('rel')
        xo = os.path.join(build_dir(), 'rel', 'xbooz_xform.o')
        jobs.append((['g++', '-std=gnu++11', '-w', *VARIANTS['rel']['flags'], *INC, '-DVERSION_INFO=' + project_version(), '-c', SRC + '/xbooz_xform.cpp'], xo))
        _pool(jobs)
        tmp = exe + '.%d.tmp' % os.getpid()
        r = run(['g++', xo, *objs, '-fopenmp', *nc_flags()[1], '-o', tmp])
        if r.returncode != 0: raise BuildError(r.stdout[:20000])
        os.rename(tmp, exe)
    return exe


# ---------------------------------------------------------------- scratch

_scratch = None


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='vf_', dir=base)
        import atexit
        pid = os.getpid()
        atexit.register(lambda d=_scratch: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _scratch


# ---------------------------------------------------------------- running shards

def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'GOMP_', 'MALLOC_', 'ASAN_', 'UBSAN_', 'TSAN_', 'LD_PRELOAD'))}
    e.update(PATH='/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', VERIF_TIER=TIER, VERIF_SEED=str(SEED),
             OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:malloc_context_size=8:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e.update(kw)
    return e


class Shards:
    """Run `exe args --shard i n --out file` for all i; collect their JSON.

    A shard process writes its current case number into <out>.cur, so that a
    crash or a hang is attributed to a case."""

    def __init__(self, exe, args, n=None, timeout=800, env=None, cwd=None):
        self.exe = exe if isinstance(exe, list) else [exe]
        self.args, self.n, self.timeout = list(args), n or NPROC, timeout
        self.env = env or clean_env()
        self.cwd = cwd

    def run(self):
        d = tempfile.mkdtemp(dir=scratch())
        procs = []
        for i in range(self.n):
            out = os.path.join(d, 'out%d.json' % i)
            log = open(os.path.join(d, 'log%d' % i), 'w')
            wd = self.cwd or os.path.join(d, 'wd%d' % i)
            os.makedirs(wd, exist_ok=True)
            procs.append((subprocess.Popen(self.exe + self.args + ['--shard', str(i), str(self.n), '--out', out], stdout=log, stderr=subprocess.STDOUT,
                                           env=self.env, cwd=wd, start_new_session=True), out, log.name))
        end = time.time() + self.timeout
        res = dict(evaluations=0, distinct=0, nontrivial=0, transitions=0, samples=[], failures=[], known=[], counters={}, errors=[], timeouts=0, hashes={})
        for p, out, log in procs:
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
                res['timeouts'] += 1
            text = open(log, errors='replace').read()
            cur = None
            if os.path.exists(out + '.cur'):
                try: cur = json.loads(open(out + '.cur').read())
                except Exception: cur = None
            if os.path.exists(out + '.hashes'):
                for l in open(out + '.hashes'):
                    a = l.split()
                    if len(a) == 2: res['hashes'][int(a[0])] = a[1]
            if os.path.exists(out):
                j = json.load(open(out))
                for k in ('evaluations', 'distinct', 'nontrivial', 'transitions'): res[k] += j.get(k, 0)
                res['samples'] += j.get('samples', [])
                res['failures'] += j.get('failures', [])
                res['known'] += j.get('known', [])
                for k, v in j.get('counters', {}).items(): res['counters'][k] = res['counters'].get(k, 0) + v
            elif p.returncode != 0:
                hang = p.returncode == -signal.SIGKILL
                res['failures'].append(dict(case=(cur or {}).get('case'), crash=not hang, hang=hang, rc=p.returncode,
                                            what=('no progress/timeout' if hang else 'process died with status %s' % p.returncode) + ' in case %s' % json.dumps(cur),
                                            log=text[-3000:]))
                res['counters']['shards_without_result'] = res['counters'].get('shards_without_result', 0) + 1
            else:
                res['errors'].append('shard gave no result: ' + text[-2000:])
        shutil.rmtree(d, ignore_errors=True)
        return res

    def replay(self, case, timeout=300):
        """Run one case alone. Returns (failed, text)."""
        d = tempfile.mkdtemp(dir=scratch())
        out = os.path.join(d, 'out.json')
        try:
            r = subprocess.run(self.exe + self.args + ['--only', str(case), '--out', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', env=self.env, cwd=d, timeout=timeout)
            failed = r.returncode != 0
            text = r.stdout[-4000:]
            if not failed and os.path.exists(out):
                f = json.load(open(out)).get('failures', [])
                if f: failed, text = True, text + json.dumps(f[0])[:4000]
        except subprocess.TimeoutExpired:
            failed, text = True, 'timeout'
        shutil.rmtree(d, ignore_errors=True)
        return failed, text


# ---------------------------------------------------------------- reporting

def known_findings(pid):
    """Entries of KNOWN_FINDINGS.json for a property (never written at run time)."""
    try:
        return [k for k in json.load(open(VERIF + '/KNOWN_FINDINGS.json'))['findings'] if k['property'] == pid and k.get('status', 'open') == 'open']
    except FileNotFoundError:
        return []


class Report:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.parts = {}
        self.violations = []
        self.known_seen = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0, distinct_nontrivial=0, samples=[])
        self.assumptions = []
        self.rule = ''
        self.explanation = ''
        self.exhaustive = True
        self.errors = []

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def known(self, ident, what):
        self.known_seen.setdefault(ident, what)

    def shards(self, part, sh, quiet_known=()):
        """Run shards and fold their result into the report; replay failures first."""
        t = time.time()
        res = sh.run()
        self.errors += res['errors']
        info = dict(evaluations=res['evaluations'], distinct=res['distinct'], nontrivial=res['nontrivial'], transitions=res['transitions'],
                    wall_s=round(time.time() - t, 2), **res['counters'])
        self.parts[part] = info
        self.cov['states'] += res['distinct']
        self.cov['transitions'] += res['transitions']
        self.cov['traces_validated_against_impl'] += res['evaluations']
        self.cov['evaluations'] += res['evaluations']
        self.cov['distinct_nontrivial'] += res['nontrivial']
        self.cov['samples'] += [dict(part=part, case=s) for s in res['samples'][:3]]
        for k in res['known']: self.known(k['id'], k['what'])
        seen = 0
        for f in sorted(res['failures'], key=lambda f: (f.get('case') is None, f.get('case') or 0)):
            if f.get('case') is None:
                self.errors.append('failure without a case: ' + json.dumps(f)[:2000]); continue
            if seen >= 5: break
            failed, text = sh.replay(f['case'])
            if failed:
                seen += 1
                self.violation('%s: case %s: %s' % (part, f['case'], f.get('what', '')[:600]),
                               dict(property=self.pid, part=part, cmd=sh.exe + sh.args + ['--only', str(f['case'])], case=f['case'], failure=f, replay_output=text))
            elif f.get('hang'):
                self.errors.append('timeout not reproduced by case %s alone: budget exceeded (%s)' % (f['case'], part))
            else:
                # deterministic harnesses: a failure that does not replay alone is shown with the shard that found it
                failed2 = any(g.get('case') == f['case'] for g in sh.run()['failures'])
                if failed2:
                    seen += 1
                    self.violation('%s: case %s (only in the full run): %s' % (part, f['case'], f.get('what', '')[:600]),
                                   dict(property=self.pid, part=part, cmd=sh.exe + sh.args, case=f['case'], failure=f))
                else:
                    self.errors.append('failure of case %s not reproduced: %s' % (f['case'], json.dumps(f)[:1500]))
        return res

    def compare_hashes(self, part, a, b, sha, shb, what):
        """The same cases executed by two builds must give the same results."""
        diff = sorted(k for k in a['hashes'] if k in b['hashes'] and a['hashes'][k] != b['hashes'][k])
        self.parts[part] = dict(compared=sum(k in b['hashes'] for k in a['hashes']), different=len(diff))
        for k in diff[:3]:
            self.violation('%s: case %d: %s' % (part, k, what), dict(property=self.pid, part=part, case=k, cmd=sha.exe + sha.args + ['--only', str(k)],
                           cmd2=shb.exe + shb.args + ['--only', str(k)], what=what))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = dict(self.cov)
        cov['parts'] = self.parts
        cov['exhaustive'] = bool(self.exhaustive and not self.errors)
        if self.rule: cov['rule'] = self.rule
        if self.explanation: cov['explanation'] = self.explanation
        cov['samples'] = cov['samples'][:12] or ['none']
        for k in (('evaluations', 'distinct_nontrivial') if self.level == 'model_checking' else ('states', 'transitions', 'traces_validated_against_impl')):
            cov.pop(k, None)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f: json.dump(ev, f, indent=1)
        kf = {k['id']: k for k in known_findings(self.pid)}
        for ident, what in self.known_seen.items():
            if ident in kf:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[ident]['what']))
            else:
                self.violation('unlisted: ' + what, dict(property=self.pid, ident=ident, what=what))
        for name, p in self.parts.items():
            print('%s %s: %s' % (self.pid, name, ', '.join('%s=%s' % kv for kv in p.items())))
        if self.violations:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:5]):
                path = VERIF + '/replays/%s-%d.json' % (self.pid, i)
                with open(path, 'w') as f: json.dump(dict(what=what, replay=replay), f, indent=1)
                print(what[:1500])
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            print('ERROR of the check (no verdict):')
            for e in self.errors[:5]: print(e[:3000])
            sys.exit(2)
        print('%s holds on everything explored: states=%d transitions=%d impl_runs=%d wall=%.1fs' %
              (self.pid, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'], wall))
        sys.exit(0)
