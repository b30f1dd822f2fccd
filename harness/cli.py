"""C16: the two command line drivers on all token sequences of an input file.

Every case is executed by the C++ executable, by the Python command, and (as
specified by an independent scanner) through the API of the extension module.
usage: cli.py EXE PART [--shard i n] [--out f] ..."""
import ctypes, itertools, os, pickle, shutil, signal, stat, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyctx, pywout

EXE = sys.argv[1]
if not EXE.startswith('/'): EXE = os.path.abspath(EXE)
import booz_xform
from booz_xform import _cli
LIBC = ctypes.CDLL(None)
WD = os.path.join(os.getcwd(), 'cli%d' % os.getpid())
TMP = os.path.join(WD, 'tmp')
KINDS = dict(t=dict(), a=dict(asym=True, seed=1), x=dict(ntor=0, nq=0, nfp=1, seed=2), m=dict(ns=2, mpol=1, mq=1, seed=3))
NS = dict(t=5, a=5, x=5, m=2)
WIDE = dict(ns=14, mpol=1, ntor=0, mq=1, nq=0, seed=4)
TOK = ['14', '1', '0', '-2', '3', '2.0', 't', 'a', '99999999999', '+2,1']
NAMES = ['14', '1', '0', '-2', '3', '2.0', '99999999999', '+2,1', '.0', ',1', '-', '1-2', '+', '007', '1e1', 'e1', '--1', '2147483648', '-2147483649', 'x1', '0x3', 'x3', 'xn\u00e9']
EXTRA = [n for n in NAMES if n]


def setup():
    os.makedirs(TMP)
    for k, kw in KINDS.items(): pywout.write('%s/wout_%s.nc' % (WD, k), **kw)
    pywout.write(WD + '/wout_wide.nc', **WIDE)
    NAMES.append('wide')
    for n in EXTRA: os.symlink('wout_t.nc', '%s/wout_%s.nc' % (WD, n))
    for k in KINDS: NAMES.append(k)
    os.chdir(WD)


# ---------------------------------------------------------------- the specification

WS = ' \t\n\v\f\r'


def scan(text):
    """What an input file says: (mboz, nboz, extension, surfaces), or None if it is not valid."""
    p = 0
    def skip():
        nonlocal p
        while p < len(text) and text[p] in WS: p += 1
    def number():
        nonlocal p
        skip(); q = p
        if q < len(text) and text[q] in '+-': q += 1
        d = q
        while q < len(text) and '0' <= text[q] <= '9': q += 1
        if q == d: return None
        v = int(text[p:q])
        p = q
        return v if -2**31 <= v <= 2**31 - 1 else None
    mboz = number()
    if mboz is None: return None
    nboz = number()
    if nboz is None: return None
    skip(); q = p
    while p < len(text) and text[p] not in WS: p += 1
    if p == q: return None
    ext = text[q:p]
    surfs = []
    while True:
        v = number()
        if v is None: return mboz, nboz, ext, surfs
        surfs.append(v)


def api(mboz, nboz, ext, surfs):
    """The same calls through the API, in a child process: contents of the file, or None if it fails."""
    out = 'api.nc'
    def child():
        b = booz_xform.Booz_xform()
        b.verbose = 0
        b.read_wout('wout_' + ext + '.nc')
        if mboz > b.mboz: b.mboz = mboz
        if nboz > b.nboz: b.nboz = nboz
        if surfs: b.compute_surfs = sorted(surfs)
        b.run()
        b.write_boozmn(out)
        return 0
    rc = fork(child, 'api.out')
    data = None
    if os.path.exists(out):
        data = open(out, 'rb').read()
        os.unlink(out)
    return data if rc == 0 else None


# ---------------------------------------------------------------- executions

def fork(f, outname, limit=120):
    """Run f() in a child like a Python script whose output goes to a file. Returns the exit status."""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(limit)
            fd = os.open(outname, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(fd, 1)
            err = os.open('stderr.txt', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(err, 2)
            sys.stdout = open(1, 'w', closefd=False)
            rc = 1
            try:
                rc = f()
                rc = 0 if rc is None else rc if isinstance(rc, int) else 1
            except SystemExit as e:
                rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            LIBC.fflush(None)
            os._exit(rc & 255)
        finally:
            os._exit(113)
    st = os.waitpid(pid, 0)[1]
    return os.waitstatus_to_exitcode(st)


def run_py(args):
    return fork(lambda: _cli.main(list(args)), 'py.out'), read('py.out')


def run_real_py(args):
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONUNBUFFERED'}
    with open('py.out', 'wb') as o, open('stderr.txt', 'wb') as e:
        r = subprocess.run([sys.executable, '-c', 'import sys; from booz_xform._cli import main; sys.exit(main())'] + list(args), stdout=o, stderr=e, env=env, timeout=300)
    return r.returncode, read('py.out')


def run_cpp(args):
    with open('c.out', 'wb') as o, open('stderr_c.txt', 'wb') as e:
        r = subprocess.run([EXE] + list(args), stdout=o, stderr=e, timeout=300)
    return r.returncode, read('c.out')


def read(f):
    return open(f, 'rb').read().decode('utf-8', 'surrogateescape')


def lines(text):
    return [l.rstrip() for l in text.split('\n') if not l.startswith('This is xbooz_xform')]


def outputs():
    return sorted(f for f in os.listdir('.') if f.startswith('boozmn'))


CACHE = {}


def decide(c, text, real=False):
    """All three executions of an input file."""
    with open('in_booz', 'w', newline='') as f: f.write(text)
    spec = scan(text)
    want = None
    if spec and spec[2] in NAMES:
        key = (max(spec[0], 0), max(spec[1], 0), spec[2], tuple(sorted(spec[3])))
        if key not in CACHE: CACHE[key] = api(*spec[:2], spec[2], spec[3])
        want = CACHE[key]
    name = 'boozmn_%s.nc' % spec[2] if spec else None
    old = b'earlier file' if c.idx % 2 and spec and '/' not in spec[2] else None
    res = []
    for who, f in (('C++', run_cpp), ('Python', run_real_py if real else run_py)):
        for g in outputs(): os.unlink(g)
        if old:
            with open(name, 'wb') as g: g.write(old)
        rc, out = f(['in_booz'])
        left = outputs()
        got = open(name, 'rb').read() if name in left else None
        res.append((rc, out, got))
        c.transitions += 1
        if want is None:
            if rc == 0: return c.fail('%s driver succeeded, but %s' % (who, 'the same calls through the API fail' if spec else 'the input file is not valid'))
            if rc < 0 and not (rc == -signal.SIGABRT and who == 'C++'): return c.fail('%s driver was killed by signal %d' % (who, -rc))
            if got != old: return c.fail('%s driver failed, but changed the output file' % who)
        else:
            if rc != 0: return c.fail('%s driver failed with status %d: %s %s' % (who, rc, out[-200:], read('stderr_c.txt' if who == 'C++' else 'stderr.txt')[-500:]))
            if got is None: return c.fail('%s driver wrote no %s (files: %s)' % (who, name, left))
            if got != want: return c.fail('%s driver wrote a file that is not that of the same calls through the API (%d and %d bytes)' % (who, len(got), len(want)))
        if [l for l in left if l != name]: return c.fail('%s driver wrote other files: %s' % (who, left))
    if want is not None:
        a, b = lines(res[0][1]), lines(res[1][1])
        if a != b:
            for i in range(max(len(a), len(b))):
                x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
                if x != y: return c.fail('console line %d is %r for C++ and %r for Python' % (i, x, y))
        c.nontrivial += 1
    c.states.add((spec and (max(spec[0], 0), max(spec[1], 0), spec[2], tuple(spec[3]))) or None)


# ---------------------------------------------------------------- parts

def c16_tokens(c):
    for n in range(0, 5 if not c.thorough else 6):
        for s in itertools.product(TOK, repeat=n):
            if not c.next(): continue
            t = ' '.join(s) + ('\n' if c.idx % 3 else '')
            c.begin(repr(t))
            decide(c, t)
    for p in (('14', '1'), ('1', '3')):
        for e in ('t', 'a'):
            for n in range(2, 4 if not c.thorough else 5):
                for s in itertools.product(TOK, repeat=n):
                    if not c.next(): continue
                    t = '%s %s\n%s\n%s\n' % (*p, e, ' '.join(s))
                    c.begin(repr(t))
                    decide(c, t)


def c16_layout(c):
    seps = [' ', '\n', '\t\t', '\r\n', '\v\f']
    base = [('13', '2', 't', '3', '0'), ('13', '+2', 'a', '1')]
    for b in base:
        for q in itertools.product(seps, repeat=len(b) - 1):
            for lead in ('', '\n \t') if not c.thorough else ('', '\n ', '\t', '\r\n\v'):
                for tail in ('', ' \n', '\n#') if not c.thorough else ('', ' \n', '\r\n', ' x', '\n#'):
                    if not c.next(): continue
                    t = lead + ''.join(x + y for x, y in zip(b, q)) + b[-1] + tail
                    c.begin(repr(t))
                    decide(c, t)


def c16_surfs(c):
    for e in KINDS:
        n = NS[e] - 1
        for L in range(0, 5 if not c.thorough else 6):
            for s in itertools.product(range(n), repeat=L):
                if not c.next(): continue
                t = '1 0\n%s\n%s\n' % (e, ' '.join(map(str, s)))
                c.begin(repr(t))
                decide(c, t)
        for L in range(1, 4):
            for s in itertools.product((-1, 0, n - 1, n, 2147483647, -2147483648), repeat=L):
                if not c.next(): continue
                t = '1 0\n%s\n%s\n' % (e, '\n'.join(map(str, s)))
                c.begin(repr(t))
                decide(c, t)


def c16_wide(c):
    """Surface numbers with several digits; long lists."""
    lists = list(itertools.product(range(13), repeat=2)) + list(itertools.product((1, 2, 9, 10, 11, 12), repeat=3 if not c.thorough else 4))
    lists += [tuple((k * j + 1) % 13 for j in range(n)) for n in range(4, 40) for k in (5, 12)] + [tuple(j % 13 for j in range(n)) for n in (63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 500, 1000, 1025)]
    for s in lists:
        if not c.next(): continue
        t = '1 0\nwide\n%s\n' % ' '.join(map(str, s))
        c.begin(repr(t))
        decide(c, t)


def c16_numbers(c):
    """Numbers as tokens at every position."""
    for pos in range(4):
        for n in ('007', '-0', '+0', '1e1', '0x3', '1-2', '-', '+', '--1', '+-1', '2147483648', '-2147483649', '3;', '3,', ',3', '3 #', "1'000", '1_0', '\u0663', '\u00a03', '-2147483648') + (('2147483647',) if pos == 3 else ()):
            for rest in ('0', '2 1'):
                if not c.next(): continue
                t = ['13', '2', 't', rest]
                t[pos] = n + (' ' + rest if pos == 3 else '')
                t = '\n'.join(t) + '\n'
                c.begin(repr(t))
                decide(c, t)
    for e in ('xn\u00e9', 't/', './t', '../t', 'none', 't.nc', 'a b'):
        if not c.next(): continue
        t = '13 2\n%s\n1\n' % e
        c.begin(repr(t))
        decide(c, t)


def c16_resolution(c):
    for e in KINDS:
        for m in range(-1, 15 if not c.thorough else 20):
            for n in range(-1, 6 if not c.thorough else 9):
                for s in ('', '0'):
                    if not c.next(): continue
                    t = '%d %d\n%s\n%s\n' % (m, n, e, s)
                    c.begin(repr(t))
                    decide(c, t)


def c16_process(c):
    """The Python command as a process of its own."""
    for t in ['', '14', '14 1', '14 1 t', '14 1 t 0', '14 1 a 3 0 3', '1 0 x 1', '1 0 m', '14 1 none', '14 1 t 4', 'x', '3.5 1 t 0', '14 1 t 2.5', '14 1 t 99999999999 1', '\n\n14\r\n1\r\nt\r\n2 1\r\n', '14 1 t -1', '15 3 a']:
        if not c.next(): continue
        c.begin('process: %r' % t)
        decide(c, t, True)


def c16_args(c):
    """Numbers of arguments, and names that are no input files."""
    with open('good', 'w') as f: f.write('1 0 t 0')
    os.makedirs('adir', exist_ok=True)
    with open('adir/in', 'w') as f: f.write('1 0 t 0')
    names = ['good', 'adir/in', 'missing', 'adir', '', '-h', '--help', '/dev/null', 'good ']
    for n in range(0, 4):
        for a in itertools.product(names, repeat=n):
            for f in ((run_py, run_real_py) if n < 2 else (run_py,)):
                if not c.next(): continue
                c.begin('arguments %r' % (a,))
                res = []
                for g in (run_cpp, f):
                    for o in outputs(): os.unlink(o)
                    rc, out = g(a)
                    res.append((rc, out, [(o, open(o, 'rb').read()) for o in outputs()]))
                    c.transitions += 1
                c.states.add((a, f is run_py))
                for who, (rc, out, files) in zip(('C++', 'Python'), res):
                    if n != 1:
                        if rc != 0: c.fail('%s driver fails with %d arguments: status %d' % (who, n, rc))
                        if 'usage' not in out.lower(): c.fail('%s driver prints no usage' % who)
                        if files: c.fail('%s driver writes a file with %d arguments' % (who, n))
                    elif a in (('good',), ('adir/in',)):
                        if rc != 0 or len(files) != 1: c.fail('%s driver fails' % who)
                    elif rc == 0 or files: c.fail('%s driver succeeds without an input file' % who)
                if n != 1 or a in (('good',), ('adir/in',)):
                    if lines(res[0][1]) != lines(res[1][1]): c.fail('console text differs: %r and %r' % (res[0][1], res[1][1]))
                    if res[0][2] != res[1][2]: c.fail('files differ')
                    c.nontrivial += 1


if __name__ == '__main__':
    sys.argv.pop(1)
    setup()
    try:
        rc = pyctx.main({k: v for k, v in globals().items() if k.startswith('c16_')})
    finally:
        os.chdir('/')
        shutil.rmtree(WD, ignore_errors=True)
    sys.exit(rc)
