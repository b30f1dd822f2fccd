"""C17: every combination of plot options; what reaches the plotting backends is compared with
values computed from the object's spectra."""
import itertools, os, re, shutil, sys, types, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np


# plotly is not installed: a module that records what it is given
class Trace:
    def __init__(self, *a, **kw):
        self.kw = dict(a[0]) if a else {}
        self.kw.update(kw)


class Surface(Trace): pass
class Scatter3d(Trace): pass


class Figure:
    def __init__(self, data=None, layout=None, **kw):
        self.data = [data] if isinstance(data, Trace) else list(data or [])
        self.updates = []

    def add_trace(self, t, *a, **kw): self.data.append(t); return self
    def add_traces(self, t, *a, **kw): self.data += list(t); return self
    def update_traces(self, *a, **kw): return self
    def update_layout(self, *a, **kw): return self
    def __getattr__(self, k):
        if k.startswith('update_'): return lambda *a, **kw: self
        raise AttributeError(k)


plotly = types.ModuleType('plotly')
go = types.ModuleType('plotly.graph_objects')
go.Surface, go.Scatter3d, go.Figure = Surface, Scatter3d, Figure
go.Layout = dict
plotly.graph_objects = go
sys.modules['plotly'], sys.modules['plotly.graph_objects'] = plotly, go

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.colors as mcolors
from matplotlib.axes import Axes
import pyctx, pywout
import booz_xform as bx
warnings.simplefilter('ignore')

CONTOURS = []


def spy(name):
    real = getattr(Axes, name)
    def f(self, *a, **kw):
        CONTOURS.append((name, a, dict(kw)))
        return real(self, *a, **kw)
    setattr(Axes, name, f)


spy('contour'); spy('contourf')

WD = os.path.join(os.getcwd(), 'plot%d' % os.getpid())
ATTRS = [k for k in dir(bx.Booz_xform) if not k.startswith('_') and isinstance(getattr(bx.Booz_xform, k), property)]

SHAPES = {   # name: wout, surfaces, mboz, nboz
    'sym': (dict(nfp=2), [3, 1], 4, 2),
    'asym': (dict(nfp=3, asym=True, seed=1), [0, 2, 3], 3, 2),
    'nfp1': (dict(nfp=1, asym=True, seed=2, mpol=3), [2], 3, 1),
    'axi': (dict(nfp=1, ntor=0, nq=0, seed=3), [1, 3], 5, 0),
    'axiasym': (dict(nfp=1, ntor=0, nq=0, asym=True, seed=4), [0, 3], 4, 0),
    'one': (dict(nfp=5, ntor=1, seed=5), [0], 1, 0),
    'm0': (dict(nfp=2, ntor=2, nq=2, seed=6), [2, 0, 3, 1], 1, 3),
    'wide': (dict(nfp=4, ntor=2, nq=2, seed=7), [2, 2, 1], 5, 5),
    'all': (dict(nfp=2, seed=8, mpol=2), [0, 1, 2, 3], 2, 1),
}
OBJ, FILE, SNAP = {}, {}, {}


def snapshot(b):
    r = {}
    for k in ATTRS:
        v = getattr(b, k)
        r[k] = (np.array(v, copy=True) if isinstance(v, np.ndarray) else v)
    return r


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray): return k
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or x.tobytes() != y.tobytes(): return k
        elif not (x == y or (x != x and y != y)): return k
    return None


class D: pass


def data(b):
    """Plain copies of the results, for the computation of what must be drawn."""
    d = D()
    for k in ('xm_b', 'xn_b', 'bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b', 's_b', 'nfp', 'asym', 'compute_surfs', 'xm', 'xn', 'rmnc', 'rmns', 'zmnc', 'zmns'):
        v = getattr(b, k)
        setattr(d, k, np.array(v, copy=True) if isinstance(v, np.ndarray) else v)
    return d


def setup():
    os.dup2(2, 1) if os.environ.get('VF_SHOW') else os.dup2(os.open('/dev/null', os.O_WRONLY), 1)     # console output of read_boozmn
    os.makedirs(WD)
    os.chdir(WD)
    for name, (kw, surfs, mboz, nboz) in SHAPES.items():
        pywout.write('wout_%s.nc' % name, **kw)
        b = bx.Booz_xform()
        b.verbose = 0
        b.read_wout('wout_%s.nc' % name)
        b.compute_surfs = surfs
        b.mboz, b.nboz = mboz, nboz
        b.run()
        b.write_boozmn('boozmn_%s.nc' % name)
        c = bx.Booz_xform()
        c.verbose = 0
        c.read_boozmn('boozmn_%s.nc' % name)
        OBJ[name] = dict(object=b, loaded=c, file='boozmn_%s.nc' % name)
        FILE[name] = open('boozmn_%s.nc' % name, 'rb').read()
        SNAP[name] = dict(object=snapshot(b), loaded=snapshot(c))
        d = data(b); d.orig = True
        e = data(c); e.orig = False
        DATA[name] = dict(object=d, loaded=e, file=e)


DATA = {}
CLOSE = 1e-11


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= CLOSE * max(1.0, np.max(np.abs(b))))


def execute(c, f, shape, how, kw):
    """Call a plotting function; returns its result, or None after a failure."""
    plt.figure()
    CONTOURS.clear()
    try:
        out = f(OBJ[shape][how], **kw)
    except Exception as e:
        c.fail('exception %s: %s' % (type(e).__name__, e))
        return False
    c.transitions += 1
    for h in ('object', 'loaded'):
        k = differs(SNAP[shape][h], snapshot(OBJ[shape][h])) if h == how else None
        if k: c.fail('the object was modified: ' + k); return False
    if how == 'file' and open(OBJ[shape]['file'], 'rb').read() != FILE[shape]: c.fail('the file was modified'); return False
    return out if out is not None else True


# ---------------------------------------------------------------- surfplot

def modB(d, js, th, ph):
    tot = np.zeros(np.broadcast(th, ph).shape)
    for k in range(len(d.xm_b)):
        a = float(d.xm_b[k]) * th - float(d.xn_b[k]) * ph
        tot = tot + d.bmnc_b[k, js] * np.cos(a) + (d.bmns_b[k, js] * np.sin(a) if d.asym else 0)
    return tot


def surf_case(c, shape, how, kw):
    d = DATA[shape][how]
    o = dict(js=0, fill=True, ntheta=50, nphi=90, ncontours=25)
    o.update(kw)
    if execute(c, bx.surfplot, shape, how, kw) is False: return
    if len(CONTOURS) != 1: return c.fail('%d contour plots' % len(CONTOURS))
    name, a, k = CONTOURS[0]
    if name != ('contourf' if o['fill'] else 'contour'): return c.fail('drawn with %s' % name)
    if len(a) < 3: return c.fail('contour plot without grid')
    X, Y, Z = [np.asarray(t, float) for t in a[:3]]
    if Z.shape != (o['ntheta'], o['nphi']): return c.fail('grid of %s points' % (Z.shape,))
    x1, y1 = (X[0, :] if X.ndim == 2 else X), (Y[:, 0] if Y.ndim == 2 else Y)
    if X.ndim == 2 and not close(X, np.broadcast_to(x1, X.shape)) or Y.ndim == 2 and not close(Y, np.broadcast_to(y1[:, None], Y.shape)): return c.fail('grid is not rectangular')
    if not close(x1, [2 * np.pi / d.nfp * j / max(o['nphi'] - 1, 1) for j in range(o['nphi'])]): return c.fail('toroidal angles do not cover one field period')
    if not close(y1, [2 * np.pi * j / max(o['ntheta'] - 1, 1) for j in range(o['ntheta'])]): return c.fail('poloidal angles do not cover one turn')
    want = modB(d, o['js'], y1[:, None], x1[None, :])
    if not close(Z, want): return c.fail('|B| differs by %g' % np.max(np.abs(Z - want)))
    lev = a[3] if len(a) > 3 else k.get('levels')
    if lev != o['ncontours']: return c.fail('%s contours' % lev)
    for q in ('cmap', 'alpha', 'vmin'):
        if q in kw and k.get(q) != kw[q]: return c.fail('argument %s is not passed on' % q)
    ax = [x for x in plt.gcf().axes if x.get_title()]
    num = re.findall(r'[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?', ax[0].get_title()) if ax else []
    if not any(abs(float(v) - d.s_b[o['js']]) <= 1e-3 * abs(d.s_b[o['js']]) for v in num): return c.fail('title does not show s of the surface: %s' % [x.get_title() for x in ax])
    if 'toroidal' not in ax[0].get_xlabel().lower() or 'poloidal' not in ax[0].get_ylabel().lower(): return c.fail('axes are labelled %r, %r' % (ax[0].get_xlabel(), ax[0].get_ylabel()))
    if d.bmnc_b.shape[0] > 1: c.nontrivial += 1
    c.states.add(('surf', shape, how, tuple(sorted((p, str(q)) for p, q in o.items()))))


def c17_surfplot(c):
    for shape in SHAPES:
        ns = len(SHAPES[shape][1])
        for how in ('object', 'loaded', 'file'):
            for js in [None] + list(range(ns)) + [-1]:
                for fill in (None, True, False):
                    for nt, np_ in ((None, None), (7, 5), (None, 2), (2, None), (11, None)) if not c.thorough else itertools.product((None, 2, 3, 7, 12), repeat=2):
                        for nc, ex in ((None, {}), (3, {}), (None, dict(cmap='jet')), (4, dict(alpha=0.5, vmin=1.0))):
                            if not c.next(): continue
                            kw = {k: v for k, v in dict(js=js, fill=fill, ntheta=nt, nphi=np_, ncontours=nc).items() if v is not None}
                            kw.update(ex)
                            c.begin('surfplot %s %s %s' % (shape, how, kw))
                            surf_case(c, shape, how, kw)
                            plt.close('all')


# ---------------------------------------------------------------- symplot, modeplot

def drawn():
    ax = plt.gcf().axes
    return ax, [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), mcolors.to_rgba(l.get_color()), l.get_label(), l) for x in ax for l in x.lines]


def reference(l): return len(l[0]) == 2 and tuple(l[0]) == (0, 1) and tuple(l[1]) == (0, 0)


CLASS = (('bg', 'Background'), ('qa', 'Quasiaxisymmetric'), ('mirror', 'Mirror'), ('plus', 'n = n'), ('minus', 'n = -n'), ('other', 'Other helical'), ('helical', '(Helical)'))


def klass(m, n, nfp, detail):
    if n == 0: return 'bg' if m == 0 else 'qa'
    if m == 0: return 'mirror'
    if not detail: return 'helical'
    return 'plus' if n == nfp * m else 'minus' if n == -nfp * m else 'other'


def amplitudes(d, rh):
    a = np.array(d.bmnc_b)
    gone = set()
    if rh is not None:
        for k in range(a.shape[0]):
            if rh[1] * int(d.xm_b[k]) == rh[0] * int(d.xn_b[k]): a[k, :] = 0; gone.add(k)
    return a, gone


def common(c, d, ax, lines, o, kw):
    if len(ax) != 1: c.fail('%d axes' % len(ax)); return False
    if o['log'] != (ax[0].get_yscale() == 'log'): c.fail('y axis is %s' % ax[0].get_yscale()); return False
    rad = np.sqrt(d.s_b) if o['sqrts'] else np.asarray(d.s_b)
    for l in lines:
        if reference(l) and not o['log']: continue
        if not close(l[0], rad): c.fail('abscissa of a line is not %s' % ('sqrt(s)' if o['sqrts'] else 's')); return False
        if 'marker' in kw and l[4].get_marker() != kw['marker']: c.fail('marker is not passed on'); return False
    if o['sqrts'] != ('sqrt' in ax[0].get_xlabel()): c.fail('abscissa is labelled %r' % ax[0].get_xlabel()); return False
    if o['log'] and o['ymin'] is not None and ax[0].get_ylim()[0] != o['ymin']: c.fail('lower limit is %g' % ax[0].get_ylim()[0]); return False
    if tuple(ax[0].get_xlim()) != (0, 1): c.fail('range of the abscissa is %s' % (ax[0].get_xlim(),)); return False
    leg = ax[0].get_legend()
    if leg is None: c.fail('no legend'); return False
    if 'legend_args' in kw and abs(leg._fontsize - kw['legend_args']['fontsize']) > 1e-9: c.fail('legend arguments are not passed on'); return False
    return True


def sym_case(c, shape, how, kw):
    d = DATA[shape][how]
    o = dict(max_m=20, max_n=20, ymin=None, sqrts=False, log=True, B0=True, remove_helicity=None, helical_detail=False)
    o.update(kw)
    if execute(c, bx.symplot, shape, how, kw) is False: return
    ax, lines = drawn()
    if not common(c, d, ax, lines, o, kw): return
    amp, gone = amplitudes(d, o['remove_helicity'])
    inc = {}
    for k in range(len(d.xm_b)):
        m, n = int(d.xm_b[k]), int(d.xn_b[k])
        if abs(m) <= o['max_m'] and abs(n) <= o['max_n'] * d.nfp and (o['B0'] or (m, n) != (0, 0)): inc[k] = klass(m, n, d.nfp, o['helical_detail'])
    colour, found = {}, set()
    labels = []
    for x, y, col, lab, l in lines:
        if reference((x, y)) and not o['log'] and lab.startswith('_') and col == mcolors.to_rgba('k'): continue
        hits = [k for k in inc if close(y, np.abs(amp[k]) if o['log'] else amp[k]) and (np.any(y) or k in gone)]
        if not hits: return c.fail('a line shows no included mode: %s' % y)
        cl = {inc[k] for k in hits}
        found |= set(hits)
        if len(cl) == 1:
            q = cl.pop()
            if colour.setdefault(q, col) != col: return c.fail('modes of class %s have several colours (%s)' % (q, [(int(d.xm_b[k]), int(d.xn_b[k])) for k in hits]))
        if not lab.startswith('_'): labels.append((lab, col, {inc[k] for k in hits}))
    if len(set(colour.values())) != len(colour): return c.fail('several classes have the same colour: %s' % colour)
    miss = [k for k in inc if k not in found and k not in gone]
    if miss: return c.fail('modes are not shown: %s' % [(int(d.xm_b[k]), int(d.xn_b[k])) for k in miss])
    seen = set()
    for lab, col, cl in labels:
        q = [n for n, word in CLASS if word in lab.replace('$', '').replace('_{fp}', '')]
        if lab == r'm $\ne$ 0, n $\ne$ 0 (Helical)': q = ['helical']
        if not q: return c.fail('unknown legend entry %s' % lab)
        if q[0] in seen: return c.fail('legend entry appears twice: %s' % lab)
        seen.add(q[0])
        if q[0] not in cl: return c.fail('legend entry %s is for a mode of class %s' % (lab, cl))
        if colour.get(q[0], col) != col: return c.fail('legend entry %s has the colour of another class' % lab)
    want = set(inc.values())
    if seen != want: return c.fail('legend shows %s instead of %s' % (sorted(seen), sorted(want)))
    if len(inc) > 1: c.nontrivial += 1
    c.states.add(('sym', shape, how, tuple(sorted((p, str(q)) for p, q in o.items()))))


def rhs(nfp): return (None, (1, 0), (0, 1), (1, nfp), (1, -nfp), (2, nfp), (1, 1))


def c17_symplot(c):
    for shape in SHAPES:
        nfp = SHAPES[shape][0]['nfp']
        full = shape in ('sym', 'asym', 'wide') or c.thorough
        for how in ('object', 'loaded', 'file') if full else ('object', 'file'):
            for mm, mn, yl, sq, lg, b0, rh, hd in itertools.product((None, 0, 1, 2) if full else (None, 1), (None, 0, 1, 2) if full else (None, 1), (None, 1e-3), (None, True), (None, False), (None, False), rhs(nfp) if full else (None, (1, nfp)), (None, True)):
                if how != 'object' and not c.thorough and (yl or sq or mm == 0 or mn == 0): continue
                if yl and sq and not c.thorough: continue
                if not c.next(): continue
                kw = {k: v for k, v in dict(max_m=mm, max_n=mn, ymin=yl, sqrts=sq, log=lg, B0=b0, remove_helicity=rh, helical_detail=hd).items() if v is not None}
                if c.idx % 5 == 0: kw.update(marker='x', legend_args={'fontsize': 6})
                c.begin('symplot %s %s %s' % (shape, how, kw))
                sym_case(c, shape, how, kw)
                plt.close('all')


def mode_case(c, shape, how, kw):
    d = DATA[shape][how]
    o = dict(nmodes=10, ymin=None, sqrts=False, log=True, B0=True, remove_helicity=None)
    o.update(kw)
    if execute(c, bx.modeplot, shape, how, kw) is False: return
    ax, lines = drawn()
    if not common(c, d, ax, lines, o, kw): return
    amp, gone = amplitudes(d, o['remove_helicity'])
    ks = [k for k in range(len(d.xm_b)) if o['B0'] or (int(d.xm_b[k]), int(d.xn_b[k])) != (0, 0)]
    order = sorted(ks, key=lambda k: -abs(amp[k, -1]))
    shown = [l for l in lines if not (reference(l) and not o['log'] and l[3].startswith('_'))]
    if len(shown) != min(o['nmodes'], len(ks)): return c.fail('%d modes are shown' % len(shown))
    used = set()
    for rank, (x, y, col, lab, l) in enumerate(shown):
        v = [int(t) for t in re.findall(r'=\s*\$?\s*(-?\d+)', lab)]
        if len(v) != 2: return c.fail('label %s' % lab)
        k = [k for k in ks if (int(d.xm_b[k]), int(d.xn_b[k])) == tuple(v)]
        if len(k) != 1 or k[0] in used: return c.fail('label %s is of no mode that may be shown, or appears twice' % lab)
        used.add(k[0])
        if abs(amp[k[0], -1]) != abs(amp[order[rank], -1]): return c.fail('mode number %d is (%d, %d)' % (rank, *v))
        if not close(y, np.abs(amp[k[0]]) if o['log'] else amp[k[0]]): return c.fail('values of mode %s' % v)
    texts = [t.get_text() for t in ax[0].get_legend().get_texts()]
    if texts != [l[3] for l in shown]: return c.fail('legend shows %s' % texts)
    if len(shown) > 1: c.nontrivial += 1
    c.states.add(('mode', shape, how, tuple(sorted((p, str(q)) for p, q in o.items()))))


def c17_modeplot(c):
    for shape in SHAPES:
        nfp = SHAPES[shape][0]['nfp']
        for how in ('object', 'loaded', 'file'):
            for nm, yl, sq, lg, b0, rh in itertools.product((None, 1, 2, 4, 1000), (None, 1e-3), (None, True), (None, False), (None, False), rhs(nfp)):
                if how != 'object' and not c.thorough and (yl or sq or nm == 2): continue
                if yl and sq and not c.thorough: continue
                if shape == 'one' and b0 is False: continue      # nothing to show
                if not c.next(): continue
                kw = {k: v for k, v in dict(nmodes=nm, ymin=yl, sqrts=sq, log=lg, B0=b0, remove_helicity=rh).items() if v is not None}
                if c.idx % 5 == 0: kw.update(marker='x', legend_args={'fontsize': 6})
                c.begin('modeplot %s %s %s' % (shape, how, kw))
                mode_case(c, shape, how, kw)
                plt.close('all')


# ---------------------------------------------------------------- wireplot

def booz_surface(d, js, th, ph):
    R, Z, nu, Rt, Zt = [np.zeros(np.broadcast(th, ph).shape) for _ in range(5)]
    for k in range(len(d.xm_b)):
        m, n = float(d.xm_b[k]), float(d.xn_b[k])
        co, si = np.cos(m * th - n * ph), np.sin(m * th - n * ph)
        R = R + d.rmnc_b[k, js] * co; Z = Z + d.zmns_b[k, js] * si; nu = nu + d.numns_b[k, js] * si
        Rt = Rt - m * d.rmnc_b[k, js] * si; Zt = Zt + m * d.zmns_b[k, js] * co
        if d.asym:
            R = R + d.rmns_b[k, js] * si; Z = Z + d.zmnc_b[k, js] * co; nu = nu + d.numnc_b[k, js] * co
            Rt = Rt + m * d.rmns_b[k, js] * co; Zt = Zt - m * d.zmnc_b[k, js] * si
    return R, Z, ph - nu, Rt, Zt


def orig_surface(d, js, th, ph):
    j = int(d.compute_surfs[js])
    R, Z = [np.zeros(np.broadcast(th, ph).shape) for _ in range(2)]
    for k in range(len(d.xm)):
        a = float(d.xm[k]) * th - float(d.xn[k]) * ph
        R = R + d.rmnc[k, j] * np.cos(a); Z = Z + d.zmns[k, j] * np.sin(a)
        if d.asym: R = R + d.rmns[k, j] * np.sin(a); Z = Z + d.zmnc[k, j] * np.cos(a)
    return R, Z


def curves(X, Y, Z, refine):
    out = []
    for k in range(0, X.shape[0], refine): out.append(np.array([X[k], Y[k], Z[k]]))
    for k in range(0, X.shape[1], refine): out.append(np.array([X[:, k], Y[:, k], Z[:, k]]))
    return out


def same_curves(c, what, got, want):
    """The same curves, each once, in any order."""
    if len(got) != len(want): c.fail('%d curves of %s angles instead of %d' % (len(got), what, len(want))); return False
    left = list(got)
    for w in want:
        for i, g in enumerate(left):
            if g.shape == w.shape and np.max(np.abs(g - w)) < 1e-10 * np.max(np.abs(w)): left.pop(i); break
        else: c.fail('a curve of %s angles is missing or misplaced (%d points from %s)' % (what, w.shape[1], w[:, 0])); return False
    return True


def wire_case(c, shape, how, kw):
    d = DATA[shape][how]
    o = dict(js=None, ntheta=30, nphi=80, refine=3, surf=True, orig=True)
    o.update(kw)
    fig = execute(c, bx.wireplot, shape, how, kw)
    if fig is False: return
    if not isinstance(fig, Figure): return c.fail('no figure is returned')
    js = len(d.s_b) - 1 if o['js'] is None else o['js']
    nt, nph = o['ntheta'] * o['refine'] + 1, o['nphi'] * o['refine'] + 1
    th = 2 * np.pi * np.arange(nt)[:, None] / (nt - 1)
    ph = 2 * np.pi * np.arange(nph)[None, :] / (nph - 1)
    R, Z, phi, Rt, Zt = booz_surface(d, js, th, ph)
    surfs = [t.kw for t in fig.data if isinstance(t, Surface)]
    lines = [t.kw for t in fig.data if isinstance(t, Scatter3d)]
    if len(surfs) != (1 if o['surf'] else 0): return c.fail('%d surfaces' % len(surfs))
    if any(l.get('mode') != 'lines' for l in lines): return c.fail('curves are not drawn as lines')
    groups = {}
    for l in lines: groups.setdefault(str(l['line']['color']), []).append(l)
    named = {}
    for col, ls in groups.items():
        names = {l['name'] for l in ls if l.get('showlegend') and l.get('name')}
        if len(names) != 1: return c.fail('curves in %s have legend entries %s' % (col, names))
        if sum(bool(l.get('showlegend')) for l in ls) != 1: return c.fail('curves in %s have several legend entries' % col)
        named[names.pop()] = [np.array([l['x'], l['y'], l['z']], float) for l in ls]
    want = {'Boozer coordinates': curves(R * np.cos(phi), R * np.sin(phi), Z, o['refine'])}
    if o['orig'] and d.orig:
        Ro, Zo = orig_surface(d, js, th, ph)
        want['Original coordinates'] = curves(Ro * np.cos(ph), Ro * np.sin(ph), Zo, o['refine'])
    if set(named) != set(want): return c.fail('curves of %s are shown instead of %s' % (sorted(named), sorted(want)))
    for k in want:
        if not same_curves(c, k, named[k], want[k]): return
    if o['surf']:
        X, Y, Zs = [np.asarray(surfs[0][k], float) for k in 'xyz']
        if X.shape != R.shape: return c.fail('surface has %s points' % (X.shape,))
        size = np.max(np.abs(Z - np.mean(Z)))
        Rs = X * np.cos(phi) + Y * np.sin(phi)
        if size > 0 and np.all(Rt * Rt + Zt * Zt > 1e-20):
            if np.max(np.abs(-X * np.sin(phi) + Y * np.cos(phi))) > 1e-10 * np.max(R): return c.fail('surface is displaced toroidally')
            dr, dz = Rs - R, Zs - Z
            if np.max(np.hypot(dr, dz)) > 0.02 * np.max(np.abs(R)): return c.fail('surface is displaced by up to %g' % np.max(np.hypot(dr, dz)))
            nrm = np.sqrt(Rt * Rt + Zt * Zt)
            if np.max(np.abs(dr * Rt + dz * Zt) / nrm) > 1e-9: return c.fail('surface is not displaced along its normal')
            if np.any(dr * Zt - dz * Rt > 1e-12): return c.fail('surface is displaced outward')
            c.nontrivial += 1
    c.states.add(('wire', shape, how, tuple(sorted((p, str(q)) for p, q in o.items()))))


def c17_wireplot(c):
    for shape in SHAPES:
        ns = len(SHAPES[shape][1])
        for how in ('object', 'loaded', 'file'):
            for js in [None] + list(range(ns)) + [-1]:
                for nt, nph, rf in [(3, 4, 1), (3, 4, 2), (4, 3, 3), (5, 7, None), (2, 9, 5), (1, 1, 4)] + ([(None, None, None)] if js is None else []):
                    for sf in (None, True, False):
                        for og in (None, True, False):
                            if not c.next(): continue
                            kw = {k: v for k, v in dict(js=js, ntheta=nt, nphi=nph, refine=rf, surf=sf, orig=og).items() if v is not None}
                            c.begin('wireplot %s %s %s' % (shape, how, kw))
                            wire_case(c, shape, how, kw)
                            plt.close('all')


# ---------------------------------------------------------------- inputs, sequences

FUNCS = dict(surfplot=(bx.surfplot, lambda c, s, h: surf_case(c, s, h, dict(ntheta=6, nphi=5))), symplot=(bx.symplot, lambda c, s, h: sym_case(c, s, h, {})),
             modeplot=(bx.modeplot, lambda c, s, h: mode_case(c, s, h, {})), wireplot=(bx.wireplot, lambda c, s, h: wire_case(c, s, h, dict(ntheta=3, nphi=3, refine=2))))


def c17_inputs(c):
    bad = {'missing file': 'boozmn_missing.nc', 'wout file': 'wout_sym.nc', 'None': None, 'number': 3, 'list': ['boozmn_sym.nc'], 'bytes': b'boozmn_sym.nc', 'object without results': bx.Booz_xform()}
    for f in FUNCS:
        for what, v in bad.items():
            if not c.next(): continue
            c.begin('%s of %s' % (f, what))
            plt.figure()
            try:
                FUNCS[f][0](v)
                if what != 'object without results': c.fail('no exception')
            except Exception:
                c.nontrivial += 1
            c.transitions += 1
            c.states.add((f, what))
            plt.close('all')


def c17_sequences(c):
    """All sequences of plots: none influences the next (figures, objects, files, defaults of arguments)."""
    n = 3 if not c.thorough else 4
    srcs = [('sym', 'object'), ('asym', 'file')]
    for s in itertools.product([(f, *x) for f in FUNCS for x in srcs], repeat=n):
        if not c.next(): continue
        c.begin('sequence %s' % (s,))
        for f, shape, how in s:
            FUNCS[f][1](c, shape, how)
            plt.close('all')
        c.states.add(s)



def become(name, shape, how, where):
    """Make `name` stand for the results of `shape`: the same object or file name with other contents."""
    os.chdir(os.path.join(WD, where) if where else WD)
    c = bx.Booz_xform()
    c.verbose = 0
    src = os.path.join(WD, 'boozmn_%s.nc' % shape)
    c.read_boozmn(src)
    if name not in OBJ:
        OBJ[name] = dict(object=bx.Booz_xform(), file='boozmn_%s.nc' % name)
        OBJ[name]['object'].verbose = 0
    b = OBJ[name]['object']
    if how == 'object':
        kw, surfs, mboz, nboz = SHAPES[shape]
        b.read_wout(os.path.join(WD, 'wout_%s.nc' % shape))
        b.compute_surfs = surfs
        b.mboz, b.nboz = mboz, nboz
        b.run()
    elif how == 'loaded':
        b.read_boozmn(src)
    else:
        c.write_boozmn('boozmn_%s.nc' % name)
        FILE[name] = open('boozmn_%s.nc' % name, 'rb').read()
    OBJ[name]['loaded'] = b
    SNAP[name] = {how: snapshot(b)}
    d = data(b if how != 'file' else c)
    # spectra of R and Z of an earlier equilibrium in a loaded object are those on the original angles as far as plots are concerned
    d.orig = how == 'object'
    DATA[name] = {how: d}


def c17_changes(c):
    """The same object, or the same file name, with contents that change from plot to plot."""
    pairs = [('sym', 'asym'), ('asym', 'sym'), ('sym', 'wide'), ('nfp1', 'axi'), ('all', 'm0')]
    for pair in pairs:
        for how in ('object', 'loaded', 'file'):
            for fs in itertools.product(FUNCS, repeat=2):
                for where in (('', ''), ('p', 'q')) if how == 'file' else (('', ''),):
                    for again in (0, 1):
                        if not c.next(): continue
                        c.begin('%s of %s, then %s of %s as the same %s%s%s' % (fs[0], pair[0], fs[1], pair[1], how, ' name in another directory' if where[0] else '', ', and back' if again else ''))
                        name = 'tmp%d' % c.idx
                        for k, (f, shape) in enumerate([(fs[0], pair[0]), (fs[1], pair[1])] + [(fs[0], pair[0])] * again):
                            if where[0]: os.makedirs(os.path.join(WD, where[k % 2]), exist_ok=True)
                            become(name, shape, how, where[k % 2])
                            FUNCS[f][1](c, name, how)
                            plt.close('all')
                        os.chdir(WD)
                        c.states.add((pair, how, fs, where, again))


if __name__ == '__main__':
    sys.stdout = open(os.dup(1), 'w')
    setup()
    try:
        rc = pyctx.main({k: v for k, v in globals().items() if k.startswith('c17_')})
    finally:
        os.chdir('/')
        shutil.rmtree(WD, ignore_errors=True)
    sys.exit(rc)
