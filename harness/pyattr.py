"""C18: attributes of the Python class: assignment of every layout and type, identity of names,
lifetime and aliasing of arrays over all sequences of operations."""
import ctypes, gc, hashlib, itertools, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from scipy.io import netcdf_file
import pyctx, pywout
import booz_xform as bx
from pywout import rnd

WD = os.path.join(os.getcwd(), 'attr%d' % os.getpid())
INT = ['verbose', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz']
FLOAT = ['aspect', 'toroidal_flux']
BOOL = ['asym']
IVEC = ['xm', 'xn', 'xm_nyq', 'xn_nyq', 'compute_surfs']
VEC = ['s_in', 'iota', 'phi', 'chi', 'phip', 'pres']
MAT = ['rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns']
OUT_INT = ['ns_b', 'mnboz']
OUT_IVEC = ['xm_b', 'xn_b']
OUT_VEC = ['s_b', 'Boozer_G', 'Boozer_I', 'Boozer_G_all', 'Boozer_I_all']
OUT_MAT = ['bmnc_b', 'bmns_b', 'gmnc_b', 'gmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b']
INPUTS = INT + FLOAT + BOOL + IVEC + VEC + MAT
OUTPUTS = OUT_INT + OUT_IVEC + OUT_VEC + OUT_MAT
ARRAYS = IVEC + VEC + MAT + OUT_IVEC + OUT_VEC + OUT_MAT


def setup():
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
    os.makedirs(WD)
    os.chdir(WD)
    pywout.write('wout_s.nc', ns=4, nfp=2)
    pywout.write('wout_a.nc', ns=5, nfp=3, asym=True, seed=1, mpol=3)
    for n in 'sa':
        b = load(n, surfs=[1, 2])
        b.run()
        b.write_boozmn('boozmn_%s.nc' % n)


def new():
    b = bx.Booz_xform()
    b.verbose = 0
    return b


def load(n, surfs=None, flux=True, mboz=3, nboz=1):
    b = new()
    b.read_wout('wout_%s.nc' % n, flux)
    b.mboz, b.nboz = mboz, nboz
    if surfs is not None: b.compute_surfs = surfs
    return b


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    return type(a) is type(b) and (a == b or (a != a and b != b))


def get(b, names): return {k: copy(getattr(b, k)) for k in names}
def copy(v): return np.array(v, copy=True, order='C') if isinstance(v, np.ndarray) else v


def diff(a, b):
    for k in a:
        if not same(a[k], b[k]): return k
    return None


# ---------------------------------------------------------------- assignment

def values(k, shape, seed):
    """Generic values for attribute k, distinct for each element."""
    n = int(np.prod(shape)) if shape else 1
    h = sum(map(ord, k)) + 1000 * len(k)
    if k in IVEC or k in INT: v = np.array([(j * 7 + h + seed) % 1999 - 990 for j in range(n)], dtype=np.int32)
    else: v = np.array([rnd(h, seed, j) for j in range(n)])
    return v.reshape(shape)


def layouts(a):
    """The values of a in all kinds of memory layouts and types: (name, object, exact)."""
    yield 'C', np.ascontiguousarray(a)
    yield 'F', np.asfortranarray(a)
    if a.ndim == 2:
        yield 'transposed', np.ascontiguousarray(a.T).T
        yield 'transposed F', np.asfortranarray(a.T).T
        yield 'columns reversed', np.ascontiguousarray(a[:, ::-1])[:, ::-1]
        yield 'all reversed F', np.asfortranarray(a[::-1, ::-1])[::-1, ::-1]
        big = np.full((2 * a.shape[0] + 1, 3 * a.shape[1] + 2), 7, a.dtype); big[1:2 * a.shape[0] + 1:2, 2:2 + 3 * a.shape[1]:3] = a
        yield 'strided both', big[1:2 * a.shape[0] + 1:2, 2:2 + 3 * a.shape[1]:3]
        bigf = np.asfortranarray(big); yield 'strided both F', bigf[1:2 * a.shape[0] + 1:2, 2:2 + 3 * a.shape[1]:3]
        yield 'window', np.ascontiguousarray(np.pad(a, 2, constant_values=9))[2:-2, 2:-2]
    yield 'rows reversed', np.ascontiguousarray(a[::-1])[::-1]
    yield 'every other row', np.ascontiguousarray(np.repeat(a, 2, axis=0))[::2]
    w = a.copy(); w.flags.writeable = False
    yield 'read-only', w
    yield 'swapped bytes', a.astype(a.dtype.newbyteorder('S'))
    yield 'list', a.tolist()
    yield 'tuple', tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if a.dtype.kind == 'i':
        yield 'int64', a.astype(np.int64)
        yield 'int16', a.astype(np.int16)
        yield 'float64', a.astype(float)
    else:
        yield 'object', a.astype(object)
    u = np.zeros(a.nbytes + 3, np.uint8)[3:].view(np.uint8)
    u = np.frombuffer(bytearray(3 + a.nbytes), np.uint8)[3:]; v = np.ndarray(a.shape, a.dtype, u.data); v[...] = a
    yield 'unaligned', v
    rec = np.zeros(a.shape, [('x', 'i1'), ('v', a.dtype), ('y', 'i2')]); rec['v'] = a
    yield 'field of records', rec['v']
    m = np.matrix(a) if a.ndim == 2 else None
    if m is not None: yield 'matrix', m
    yield 'masked', np.ma.array(a)


def c18_layouts(c):
    shapes2 = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 3), (0, 0), (5, 2)]
    shapes1 = [(1,), (2,), (5,), (0,), (17,)]
    for k in IVEC + VEC + MAT:
        for shape in (shapes2 if k in MAT else shapes1):
            for seed in range(1 if not c.thorough else 3):
                a = values(k, shape, seed)
                for how, v in list(layouts(a)) + ([('float32', a.astype(np.float32)), ('ints', np.arange(a.size).reshape(shape)), ('bools', np.arange(a.size).reshape(shape) % 2 == 0)] if k not in IVEC else []):
                    if not c.next(): continue
                    c.begin('%s = %s array of shape %s' % (k, how, shape))
                    if how in ('list', 'tuple') and k in MAT and 0 in shape: continue
                    b = new()
                    before = get(b, INPUTS)
                    want = np.array(v, dtype=np.int32 if k in IVEC else np.float64) if not isinstance(v, np.ndarray) else np.asarray(v).astype(np.int32 if k in IVEC else np.float64)
                    try: setattr(b, k, v)
                    except Exception as e: c.fail('exception %s' % str(e)[:200]); continue
                    got = getattr(b, k)
                    c.transitions += 2
                    c.nontrivial += 1
                    c.states.add((k, shape, how, seed))
                    if not same(np.array(got), np.ascontiguousarray(want)): c.fail('reads back as %s %s %s' % (got.dtype, got.shape, np.array(got).ravel()[:6])); continue
                    # changing the array afterwards does not change the object
                    if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                        v[...] = 3
                        if not same(np.array(getattr(b, k)), np.ascontiguousarray(want)): c.fail('changing the assigned array changed the object'); continue
                    # nor does a change of the array that was read
                    try: got[...] = 5
                    except Exception: pass
                    if not same(np.array(getattr(b, k)), np.ascontiguousarray(want)) and not np.all(np.array(getattr(b, k)) == 5): c.fail('object is corrupted by changing an array that was read'); continue
                    after = get(b, INPUTS)
                    after[k] = before[k]
                    q = diff(before, after)
                    if q: c.fail('assignment also changed ' + q)


def c18_scalars(c):
    cases = []
    for k in INT:
        for v in (0, 1, -3, 7, 2**31 - 1, -2**31, np.int32(5), np.int64(-6), np.int8(7), np.uint16(9), True): cases.append((k, v, int(v)))
    for k in FLOAT:
        for v in (0.0, -0.0, 1.5, -2.25e300, 5e-324, float('inf'), float('nan'), 3, np.float64(0.1), np.float32(0.1), np.int64(4)): cases.append((k, v, float(v)))
    for k in BOOL:
        for v in (True, False, np.bool_(True), np.bool_(False)): cases.append((k, v, bool(v)))
    for k, v, want in cases:
        if not c.next(): continue
        c.begin('%s = %r' % (k, v))
        b = new()
        before = get(b, INPUTS)
        setattr(b, k, v)
        got = getattr(b, k)
        if not same(got, want) or (isinstance(want, float) and np.copysign(1, got) != np.copysign(1, want)): c.fail('reads back as %r' % got)
        after = get(b, INPUTS); after[k] = before[k]
        q = diff(before, after)
        if q: c.fail('assignment also changed ' + q)
        c.transitions += 2; c.nontrivial += 1; c.states.add((k, repr(v)))
    bad_s = ['x', None, [1], np.zeros(2), 2**31, -2**31 - 1, 1.5, {}]
    bad_a = ['x', None, {}, object(), np.zeros((2, 2, 2)), np.array(['a', 'b']), [[1, 2], [3]]]
    for k in INPUTS:
        for v in (bad_s if k in INT + FLOAT + BOOL else bad_a + ([np.zeros((2, 3))] if k not in MAT else [])):
            if k in FLOAT and isinstance(v, (int, float)): continue
            if k in BOOL and not isinstance(v, (str, list, dict, complex)): continue
            if not c.next(): continue
            c.begin('%s = %r' % (k, v))
            b = load('a')
            before = get(b, INPUTS)
            try: setattr(b, k, v); ok = True
            except (TypeError, ValueError, OverflowError): ok = False
            c.transitions += 1; c.states.add((k, repr(v)))
            if ok and not (isinstance(v, np.ndarray)): c.fail('no exception'); continue
            if ok: continue
            c.nontrivial += 1
            q = diff(before, get(b, INPUTS))
            if q: c.fail('failed assignment changed ' + q)


def c18_outputs(c):
    """Outputs cannot be assigned, neither as a whole nor element by element."""
    for n in 'sa':
        for k in OUTPUTS:
            for how in ('same', 'zeros', 'none', 'element', 'slice', 'fill', 'delete'):
                if not c.next(): continue
                c.begin('%s: %s of output %s' % (n, how, k))
                b = load(n, [1, 2]); b.run()
                before = get(b, INPUTS + OUTPUTS)
                v = getattr(b, k)
                try:
                    if how == 'same': setattr(b, k, v)
                    elif how == 'zeros': setattr(b, k, v * 0)
                    elif how == 'none': setattr(b, k, None)
                    elif how == 'delete': delattr(b, k)
                    elif not isinstance(v, np.ndarray): continue
                    elif how == 'element': v[(0,) * v.ndim] = 5
                    elif how == 'slice': v[:1] = 5
                    elif how == 'fill': v.fill(5)
                    if how in ('same', 'zeros', 'none', 'delete'): c.fail('no exception')
                except Exception:
                    c.nontrivial += 1
                c.transitions += 1; c.states.add((n, k, how))
                q = diff(before, get(b, INPUTS + OUTPUTS))
                if q: c.fail('changed ' + q)


# ---------------------------------------------------------------- identity of names

FILEVAR = dict(bmnc_b='bmnc_b', bmns_b='bmns_b', rmnc_b='rmnc_b', rmns_b='rmns_b', zmnc_b='zmnc_b', zmns_b='zmns_b', gmnc_b='gmn_b', gmns_b='gmns_b', numnc_b='pmnc_b', numns_b='pmns_b')
HALF = dict(lmns='lmns', lmnc='lmnc', bmnc='bmnc', bmns='bmns', bsubumnc='bsubumnc', bsubumns='bsubumns', bsubvmnc='bsubvmnc', bsubvmns='bsubvmns')


def ncvars(path):
    f = netcdf_file(path, 'r', mmap=False)
    r = {k: np.array(v.data, copy=True) for k, v in f.variables.items()}
    f.close()
    return r


def c18_names(c):
    # every input holds its own value
    for order in range(4):
        if not c.next(): continue
        c.begin('all inputs assigned, order %d' % order)
        names = INPUTS if order == 0 else INPUTS[::-1] if order == 1 else sorted(INPUTS) if order == 2 else sorted(INPUTS, key=lambda k: hashlib.md5(k.encode()).hexdigest())
        b, o = new(), new()
        want = {}
        for i, k in enumerate(names):
            want[k] = i + 11 if k in INT else i + 0.25 if k in FLOAT else True if k in BOOL else values(k, (2 + i % 3, 3) if k in MAT else (3 + i % 4,), order)
            setattr(b, k, want[k])
            c.transitions += 1
        other = get(o, INPUTS)
        q = diff(want, get(b, INPUTS))
        if q: c.fail('attribute %s does not hold what was assigned to it' % q)
        q = diff(other, get(new(), INPUTS))
        if q: c.fail('assignment to one object changed %s of another one' % q)
        c.nontrivial += 1; c.states.add(('inputs', order))
    # inputs read from a file
    for n in 'sa':
        for flux in (False, True):
            if not c.next(): continue
            c.begin('attributes after read_wout(%s, flux=%s)' % (n, flux))
            b = new(); b.read_wout('wout_%s.nc' % n, flux=flux)
            w = ncvars('wout_%s.nc' % n)
            for k in ('nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'aspect'):
                if getattr(b, k) != float(w[k]): c.fail('%s = %s' % (k, getattr(b, k)))
            if b.asym != (n == 'a') or b.ns_in != int(w['ns']) - 1: c.fail('asym or ns_in')
            for k in IVEC[:4]:
                if not same(getattr(b, k).astype(float), w[k].astype(float)): c.fail('%s differs from the file' % k)
            for k, v in HALF.items():
                if v not in w: continue
                if not same(np.ascontiguousarray(getattr(b, k)), np.ascontiguousarray(w[v].astype(float).T[:, 1:])): c.fail('%s differs from the file' % k)
            if not same(b.iota, w['iotas'][1:].astype(float)): c.fail('iota')
            for k, v in dict(phi='phi', chi='chi', pres='pres', phip='phipf').items():
                x = getattr(b, k)
                if not flux:
                    if x.size: c.fail('%s is not empty' % k)
                elif x.shape != w[v].shape or np.max(np.abs(x * (-2 * np.pi if k == 'phip' else 1) - w[v])) > 1e-13 * np.max(np.abs(w[v])): c.fail('%s differs from the file' % k)
            e = lambda m, x: np.max(np.abs(getattr(b, m)[np.array(b.xm) % 2 == 0] - 0.5 * (w[x].T[:, 1:] + w[x].T[:, :-1])[w['xm'] % 2 == 0])) > 1e-13
            for k in ('rmnc', 'zmns') + (('rmns', 'zmnc') if n == 'a' else ()):
                if e(k, k): c.fail('%s differs from the file' % k)
            c.nontrivial += 1; c.transitions += 1; c.states.add(('read', n, flux))
    # outputs
    for n in 'sa':
        for surfs in ([1], [0, 2], [2, 0, 1]):
            if not c.next(): continue
            c.begin('outputs of %s, surfaces %s' % (n, surfs))
            b = load(n, surfs); b.run(); b.write_boozmn('out.nc')
            w = ncvars('out.nc')
            for k, v in FILEVAR.items():
                x = getattr(b, k)
                if n == 's' and k in ('bmns_b', 'gmns_b', 'rmns_b', 'zmnc_b', 'numnc_b'):
                    if x.shape != (0, 0): c.fail('%s is not empty' % k)
                    continue
                y = np.ascontiguousarray(w[v].astype(float).T) * (-1 if k.startswith('num') else 1)
                if not same(np.ascontiguousarray(x) + 0.0, y + 0.0): c.fail('%s is not %s of the file' % (k, v))
            if not same(b.xm_b.astype(int), w['ixm_b'].astype(int)) or not same(b.xn_b.astype(int), w['ixn_b'].astype(int)): c.fail('mode numbers')
            if b.mnboz != len(w['ixm_b']) or b.ns_b != len(surfs): c.fail('mnboz or ns_b')
            if not same(b.Boozer_G_all, w['bvco_b'][1:].astype(float)) or not same(b.Boozer_I_all, w['buco_b'][1:].astype(float)): c.fail('Boozer_G_all or Boozer_I_all')
            if not same(b.Boozer_G, b.Boozer_G_all[surfs]) or not same(b.Boozer_I, b.Boozer_I_all[surfs]) or not same(b.s_b, b.s_in[surfs]): c.fail('Boozer_G, Boozer_I, or s_b')
            c.nontrivial += 1; c.transitions += 2; c.states.add(('out', n, tuple(surfs)))
    if c.next():
        c.begin('all names exist, and no others can be assigned')
        have = {k for k in dir(bx.Booz_xform) if isinstance(getattr(bx.Booz_xform, k), property)}
        if set(INPUTS + OUTPUTS) - have: c.fail('missing attributes: %s' % (set(INPUTS + OUTPUTS) - have))
        for k in ('compute_surf', 'mbooz', 'bmnc_B', 'nothing'):
            try: setattr(new(), k, 1); c.fail('assignment to unknown attribute %s succeeds silently' % k)
            except AttributeError: pass
        c.states.add('names')


VMECARGS = ['ns', 'iotas', 'rmnc0', 'rmns0', 'zmnc0', 'zmns0', 'lmnc0', 'lmns0', 'bmnc0', 'bmns0', 'bsubumnc0', 'bsubumns0', 'bsubvmnc0', 'bsubvmns0', 'phips', 'chi', 'pres', 'phi']
VMECFILE = dict(iotas='iotas', phips='phipf', chi='chi', pres='pres', phi='phi')


def c18_vmec(c):
    """init_from_vmec with positional and keyword arguments in all layouts gives what read_wout gives."""
    for n in 'sa':
        w = ncvars('wout_%s.nc' % n)
        full = {}
        for a in VMECARGS[1:]:
            v = VMECFILE.get(a, a[:-1])
            full[a] = w[v].astype(float).T if v in w else np.zeros((0, 0))
        full['ns'] = int(w['ns'])
        ref = {f: get(load(n, flux=f), INPUTS) for f in (False, True)}
        for flux in (False, True):
            args = VMECARGS if flux else VMECARGS[:14]
            for npos in range(0, len(args) + 1):
                for how in ('C', 'F', 'strided', 'lists'):
                    if not c.next(): continue
                    c.begin('init_from_vmec %s, %d of %d arguments by position, layout %s' % (n, npos, len(args), how))
                    def lay(x):
                        if isinstance(x, int): return x
                        if how == 'C': return np.ascontiguousarray(x)
                        if how == 'F': return np.asfortranarray(x)
                        if how == 'strided': return np.repeat(x, 3, axis=x.ndim - 1)[..., ::3]
                        return x.tolist() if x.size else x
                    vals = {a: lay(full[a]) for a in args}
                    b = new()
                    for k in ('asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm', 'xn', 'xm_nyq', 'xn_nyq', 'aspect'): setattr(b, k, ref[flux][k])
                    try: b.init_from_vmec(*[vals[a] for a in args[:npos]], **{a: vals[a] for a in args[npos:][::-1]})
                    except Exception as e: c.fail('exception %s' % str(e)[:300]); continue
                    b.mboz, b.nboz = 3, 1
                    q = diff(ref[flux], get(b, INPUTS))
                    c.transitions += 1; c.nontrivial += 1; c.states.add((n, flux, npos, how))
                    if q: c.fail('%s differs from that of read_wout' % q)


# ---------------------------------------------------------------- sequences

class World:
    """One object, the arrays obtained from it so far (with their values at that time), a model of its inputs."""

    def __init__(self):
        self.b = load('s', [1])
        self.model = get(self.b, INPUTS)
        self.held = []
        self.given = []
        self.out = None      # expected outputs, if known

    def op(self, o, c):
        c.transitions += 1
        if o == 'get outputs': self.hold(OUT_IVEC + OUT_VEC + OUT_MAT)
        elif o == 'get inputs': self.hold(IVEC + VEC + MAT)
        elif o == 'get views':
            for k in ('bmnc_b', 'rmnc', 's_b', 'xm'):
                v = getattr(self.b, k)
                for w in (v[::-1], v.T, v[:1], v.reshape(-1)): self.held.append((k, w, copy(w)))
        elif o == 'run':
            try: self.b.run()
            except Exception as e: return 'run failed: %s' % e
            self.out = expected(self.model)
        elif o in ('read s', 'read a'):
            self.b.read_wout('wout_%s.nc' % o[-1], o[-1] == 'a')
            self.b.mboz, self.b.nboz = 3, 1
            self.model = get(load(o[-1], flux=o[-1] == 'a'), INPUTS)
            if o == 'read s':       # series that a symmetric equilibrium does not use
                for k in ('rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns'): self.model[k] = copy(getattr(self.b, k))
            self.out = 'unknown'
        elif o == 'read boozmn':
            self.b.read_boozmn('boozmn_a.nc')
            for k in INPUTS: self.model[k] = copy(getattr(self.b, k))
            self.out = 'unknown'
        elif o == 'write': 
            try: self.b.write_boozmn('seq.nc')
            except Exception: pass
            self.model['phip'] = copy(self.b.phip)      # known finding C11-phip0
        elif o == 'select': self.assign('compute_surfs', np.array([2, 0], np.int32)); 
        elif o == 'assign':
            self.assign('bmnc', np.asfortranarray(self.model['bmnc'] * 1.25)); self.assign('iota', self.model['iota'] + 0.125)
        elif o == 'swap':       # arrays of the object assigned to other attributes of it
            x, y = self.b.rmnc, self.b.zmns
            self.b.rmnc = y; self.b.zmns = x
            self.model['rmnc'], self.model['zmns'] = self.model['zmns'], self.model['rmnc']
        elif o == 'self':
            for k in IVEC + VEC + MAT: setattr(self.b, k, getattr(self.b, k))
        elif o == 'scribble':   # change the arrays that were assigned earlier
            for a in self.given: a[...] = 77
        elif o == 'delete':
            self.b = None
            gc.collect()
            junk = [np.full(n, 7.75) for n in (8, 64, 512)]
            self.b = load('s', [1]); self.model = get(self.b, INPUTS); self.out = None
        return None

    def assign(self, k, a):
        self.given.append(a)
        setattr(self.b, k, a)
        self.model[k] = copy(a)

    def hold(self, names):
        for k in names:
            v = getattr(self.b, k)
            self.held.append((k, v, copy(v)))

    def check(self):
        for k, v, w in self.held:
            if not same(np.ascontiguousarray(v), w): return 'an array obtained from %s changed' % k
        q = diff(self.model, get(self.b, INPUTS))
        if q: return 'input %s does not have the value that was assigned' % q
        if isinstance(self.out, dict):
            q = diff(self.out, get(self.b, OUTPUTS))
            if q: return 'output %s is not that of a fresh object with the same inputs' % q
        return None


RESULTS = {}


def expected(model):
    key = hashlib.md5(b''.join(repr((k, getattr(model[k], 'shape', 0))).encode() + (model[k].tobytes() if isinstance(model[k], np.ndarray) else repr(model[k]).encode()) for k in INPUTS)).digest()
    if key not in RESULTS:
        f = new()
        for k in INPUTS: setattr(f, k, model[k])
        f.run()
        RESULTS[key] = get(f, OUTPUTS)
    return RESULTS[key]


OPS = ['get outputs', 'get inputs', 'run', 'read a', 'read s', 'read boozmn', 'write', 'select', 'assign', 'swap', 'self', 'scribble', 'delete', 'get views']


def c18_sequences(c):
    depth = 3 if not c.thorough else 4
    for s in itertools.product(OPS, repeat=depth):
        for first in ((), ('run', 'get outputs', 'get inputs', 'get views')):
            if not c.next(): continue
            c.begin('sequence %s' % (first + s,))
            w = World()
            for i, o in enumerate(first + s):
                if o == 'run' and w.out == 'unknown' and w.model['rmnc'].size == 0: break
                if o == 'run' and (w.model['mboz'] < 1 or w.model['rmnc'].shape != (w.model['mnmax'], w.model['ns_in']) or np.any(w.model['compute_surfs'] >= w.model['ns_in'])): break
                e = w.op(o, c)
                e = e or w.check()
                if e: c.fail('after %s: %s' % (o, e)); break
                c.states.add(first + s[:i + 1 - len(first)] if i >= len(first) else first[:i + 1])
            c.nontrivial += 1


# ---------------------------------------------------------------- memory

class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info


def in_use():
    gc.collect()
    i = LIBC.mallinfo2()
    return i.uordblks + i.hblkhd, sys.getallocatedblocks()


def tryto(f, *a):
    try: f(*a)
    except Exception: pass


def c18_leaks(c):
    """Each access is repeated; the memory in use must not grow with the number of repetitions."""
    pywout.write('wout_l.nc', ns=1500, nfp=2)
    big = load('l', surfs=[0, 700, 1490], mboz=16, nboz=8)
    big.run()
    big.write_boozmn('boozmn_l.nc')
    cases = []
    for k in ARRAYS: cases.append(('reading ' + k, lambda k=k: getattr(big, k), np.asarray(getattr(big, k)).nbytes))
    for k in IVEC + VEC + MAT:
        for nm, lay in (('', lambda a: a), (' Fortran', np.asfortranarray), (' reversed', lambda a: a[::-1]), (' list', lambda a: a.tolist()), (' other type', lambda a: a.astype(np.float32 if a.dtype.kind == 'f' else np.int64))):
            a = lay(values(k, (3000,) if k not in MAT else (60, 50), 3))
            x = new()
            cases.append(('assigning %s%s' % (k, nm), lambda k=k, a=a, x=x: setattr(x, k, a), 12000 if k in IVEC else 24000))
        x = new()
        cases.append(('assigning %s something else' % k, lambda k=k, x=x: tryto(setattr, x, k, 'text'), 100))
    for k in OUTPUTS: cases.append(('assigning output ' + k, lambda k=k: tryto(setattr, big, k, np.ones((60, 50))), 100))
    for k in INT + FLOAT + BOOL + OUT_INT: cases.append(('reading ' + k, lambda k=k: getattr(big, k), 24))
    one = new()
    def chain():
        b = load('l', surfs=[0, 3]); b.run(); b.write_boozmn('leak.nc'); b.read_boozmn('leak.nc')
    w = ncvars('wout_l.nc')
    vals = [w[VMECFILE.get(a, a[:-1])].astype(float).T if VMECFILE.get(a, a[:-1]) in w else np.zeros((0, 0)) for a in VMECARGS[1:]]
    def direct():
        b = new()
        for k in ('asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm', 'xn', 'xm_nyq', 'xn_nyq'): setattr(b, k, getattr(big, k))
        b.init_from_vmec(int(w['ns']), *vals)
    cases += [('creating', new, 1000), ('read_wout', lambda: one.read_wout('wout_l.nc'), 100000), ('read_wout with fluxes', lambda: one.read_wout('wout_l.nc', True), 100000),
              ('read_wout into a new object', lambda: new().read_wout('wout_l.nc', True), 100000),
              ('read_wout of a missing file', lambda: tryto(new().read_wout, 'missing.nc'), 500), ('read_wout of a wrong file', lambda: tryto(new().read_wout, 'boozmn_s.nc'), 500),
              ('read_boozmn', lambda: one.read_boozmn('boozmn_l.nc'), 20000), ('read_boozmn of a wrong file', lambda: tryto(new().read_boozmn, 'wout_s.nc'), 500),
              ('write_boozmn', lambda: big.write_boozmn('leak.nc'), 500), ('run', lambda: big.run(), 20000), ('run without data', lambda: tryto(new().run), 500), ('everything', chain, 100000),
              ('init_from_vmec', direct, 100000)]
    for name, f, size in cases:
        if not c.next(): continue
        c.begin('memory after %s again and again' % name)
        c.nontrivial += 1
        c.states.add(name)
        slow = name in ('run', 'everything') or 'read_' in name or 'write_' in name
        n = 60 if slow else min(4000, max(60, 4000000 // max(size, 1)))
        for _ in range(20): f()
        m0, b0 = in_use()
        for _ in range(n): f()
        m1, b1 = in_use()
        c.transitions += n + 20
        if m1 - m0 > n * size // 2 and m1 - m0 > 150000: c.fail('%d times leave %d bytes behind' % (n, m1 - m0))
        if b1 - b0 > n // 2 + 50: c.fail('%d times leave %d Python objects behind' % (n, b1 - b0))


if __name__ == '__main__':
    sys.stdout = open(os.dup(1), 'w')
    setup()
    try:
        rc = pyctx.main({k: v for k, v in globals().items() if k.startswith('c18_')})
    finally:
        os.chdir('/')
        shutil.rmtree(WD, ignore_errors=True)
    sys.exit(rc)
