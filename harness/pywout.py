"""Small VMEC wout files (classic format) with smooth generic contents."""
import numpy as np
from scipy.io import netcdf_file


def rnd(*a):
    h = 1469598103934665603
    for x in a: h = ((h ^ (x + 77)) * 1099511628211 + 0x9e3779b97f4a7c15) % 2**64; h ^= h >> 29
    return (h >> 11) / 2.0**52 - 1


def write(path, ns=5, nfp=2, mpol=2, ntor=1, mq=2, nq=1, asym=False, seed=0):
    xm, xn, xmq, xnq = [], [], [], []
    for m in range(mpol):
        for n in range(-ntor if m else 0, ntor + 1): xm.append(m); xn.append(n * nfp)
    for m in range(mq + 1):
        for n in range(-nq if m else 0, nq + 1): xmq.append(m); xnq.append(n * nfp)
    f = netcdf_file(path, 'w')
    f.createDimension('radius', ns); f.createDimension('mn_mode', len(xm)); f.createDimension('mn_mode_nyq', len(xmq))
    def scal(k, v, t='i'): q = f.createVariable(k, t, ()); q.data[...] = v
    def vec(k, v, d): q = f.createVariable(k, 'd', (d,)); q[:] = v
    scal('ns', ns); scal('nfp', nfp); scal('mpol', mpol); scal('ntor', ntor); scal('mnmax', len(xm)); scal('mnmax_nyq', len(xmq))
    scal('lasym__logical__', int(asym)); scal('aspect', 4.5, 'd')
    vec('xm', xm, 'mn_mode'); vec('xn', xn, 'mn_mode'); vec('xm_nyq', xmq, 'mn_mode_nyq'); vec('xn_nyq', xnq, 'mn_mode_nyq')
    s = np.linspace(0, 1, ns)
    vec('iotas', [0] + [0.41 + 0.1 * x for x in s[1:]], 'radius')
    vec('phip', -1.3 - 0.1 * s, 'radius'); vec('phipf', -1.3 - 0.1 * s, 'radius'); vec('chi', 0.3 * s, 'radius'); vec('pres', 100 * (1 - s), 'radius'); vec('phi', -0.9 * s, 'radius')
    vec('phips', -1.3 - 0.1 * s, 'radius')
    base = dict(rmnc=(4.0, 0.4), zmns=(0, 0.4), lmns=(0, 0.05), bmnc=(2.0, 0.1), bsubumnc=(0.3, 0.02), bsubvmnc=(8.0, 0.05),
                rmns=(0, 0.02), zmnc=(0, 0.02), lmnc=(0, 0.01), bmns=(0, 0.02), bsubumns=(0, 0.01), bsubvmns=(0, 0.02))
    for k, (a0, a) in base.items():
        if k in ('rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns') and not asym: continue
        nyq = k.startswith('b'); m_, n_ = (xmq, xnq) if nyq else (xm, xn)
        q = f.createVariable(k, 'd', ('radius', 'mn_mode_nyq' if nyq else 'mn_mode'))
        for j in range(ns):
            for i in range(len(m_)):
                sine = k in ('zmns', 'lmns', 'rmns', 'bmns', 'bsubumns', 'bsubvmns')
                v = a0 * (1 + 0.03 * s[j]) if m_[i] == 0 and n_[i] == 0 else a * s[j] ** (m_[i] / 2) * rnd(seed, sum(map(ord, k)), i) * 0.6 ** (m_[i] + abs(n_[i]) / nfp)
                if sine and m_[i] == 0 and n_[i] == 0: v = 0
                if k in ('rmnc', 'zmns') and m_[i] == 1 and n_[i] == 0: v = s[j] ** 0.5
                q.data[j, i] = v
    f.close()
