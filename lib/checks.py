"""The checks: one function per property."""
import os, sys
import vf
from vf import Report, Shards, TIER

TH = ['--thorough'] if TIER == 'thorough' else []
REG = {}


def check(pid, level='model_checking'):
    def deco(f):
        REG[pid] = (f, level); return f
    return deco


def run(pid):
    f, level = REG[pid]
    r = Report(pid, level)
    f(r)
    r.finish()


def mc(r, parts, timeout=800):
    exe = vf.build_harness('mc', 'rel')
    for p in parts: r.shards(p, Shards(exe, [p] + TH, timeout=timeout if TIER == 'quick' else 7200))


ASSUME_REAL = ['real arithmetic is observed through IEEE doubles: amplitudes are compared within a tolerance of about 1e-12 of the magnitude of the transformed quantity',
               'coefficient values come from fixed alphabets (generic smooth fields, unit impulses, signs of G, I, iota); shapes are exhaustive within the bounds']


@check('C01')
def c01(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'Every shape in the bounds, every single input coefficient, all pairs of coefficients, ladders of resolutions and all surfaces of the stored equilibria, each transformed by the real code and compared with an independent evaluation of the defining integrals. states = distinct inputs; transitions = surfaces transformed.'
    mc(r, ['c01_shapes', 'c01_impulses', 'c01_pairs', 'c01_ladder', 'c01_special', 'c01_sets', 'c01_real'])


@check('C02')
def c02(r):
    r.assumptions = ASSUME_REAL + ['pointwise identities are compared within 1e-5 (truncation error of the output series)']
    r.explanation = 'For every shape x sign x seed in the bounds the output nu defines Boozer angles; |B|, R, Z, Jacobian and both covariant components are compared at 12 points per surface with the input series. Also every single mode up to m=28 and n=14, of lambda and of the covariant field, with iota between -12.5 and 12.5.'
    mc(r, ['c02_points', 'c02_modes', 'c02_profiles'])


@check('C03')
def c03(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'Fixed points: every shape with Boozer-coordinate input. Reparametrisations: a field known in Boozer angles rewritten with every deformation mode of lambda and nu in the alphabet.'
    mc(r, ['c03_fixed', 'c03_reparam'])


@check('C04')
def c04(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'Every symmetry operation x every shape in the bounds: pairs of runs of the real code related to each other.'
    mc(r, ['c04_sym'])


@check('C05')
def c05(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'All sequences of selected surfaces with repetition up to length 5 over 3 surfaces, all duplicate-free sequences over 5, all arithmetic progressions over 14; NaN confinement for every array and surface. A state is a selection of a given data set.'
    mc(r, ['c05_select'])


@check('C09')
def c09(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'init_from_vmec is linear per mode: every impulse (mode x full-grid surface) for every shape, plus dense data, against an independent formula.'
    mc(r, ['c09_regrid'])


@check('C19')
def c19(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'Every (mboz, nboz, nfp, symmetry, number of surfaces) in the bounds; every mode has its own amplitude so that a misplaced mode is seen.'
    mc(r, ['c19_modes', 'c19_nested', 'c19_large', 'c19_cut'])


@check('C20')
def c20(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'All permutations of small mode lists, all splits, paddings, subsets, sign conventions and unused data.'
    mc(r, ['c20_repr'])


# ---------------------------------------------------------------- files

def io(r, parts, timeout=800, variant='rel', n=None):
    exe = vf.build_harness('io', variant, hflags=['-DVF_MALLOC'] if variant != 'asan' else [])
    for p in parts: r.shards(p + ('' if variant == 'rel' else '_' + variant), Shards(exe, [p] + TH, n=n, timeout=timeout if TIER == 'quick' else 7200))


ASSUME_FILES = ['the netCDF library itself is correct; files are generated and decoded by an independent implementation of the classic format']


@check('C10')
def c10(r):
    r.assumptions = ASSUME_FILES
    r.explanation = 'Every shape x symmetry x flux option x storage type in the bounds is written as a wout file by an independent encoder, read by the real code into fresh and used objects and compared with the values put into the file after an independent regridding.'
    io(r, ['c10_read', 'c10_formats', 'c10_sets'])


@check('C11')
def c11(r):
    r.assumptions = ASSUME_FILES
    r.explanation = 'For every shape x symmetry x flux x selection in the bounds the file written by the real code is decoded by an independent decoder and compared with the complete expected contents; each is written twice with different contents of fresh memory and must be byte-wise independent of it.'
    io(r, ['c11_write', 'c12_sizes', 'c12_values', 'c12_sets'])


@check('C12')
def c12(r):
    r.assumptions = ASSUME_FILES
    r.explanation = 'All shapes x symmetry x flux x selection x reader state in the bounds: written, read, compared bit for bit, written again, compared.'
    io(r, ['c12_trip', 'c12_sizes', 'c12_values', 'c12_sets'])


@check('C07')
def c07(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'All sequences of 22 operations up to length 3 and of 11 core operations up to length 4 on one object, each followed by every load, transformation, and file (or by continuing with the current inputs), compared with a fresh object. states = distinct object states reached; transitions = operations executed.'
    io(r, ['c07_hist', 'c07_pairs'])


@check('C08')
def c08(r):
    r.assumptions = ASSUME_REAL
    r.explanation = 'Every shape in the bounds at verbosity 0 to 3 with the terminal captured; the printed table is parsed and compared with values computed from the input and output series.'
    io(r, ['c08_console', 'c08_direct'])


@check('C14')
def c14(r):
    r.assumptions = ['the netCDF library rejects what is not NetCDF; defects are single ones']
    r.explanation = 'Every single defect of an alphabet (each variable x each kind of damage, each scalar, mode number, array, attribute, setting) and all call sequences up to length 4, on the optimised code and on code with address, undefined behaviour and container assertions.'
    for v in ('rel', 'asan'): io(r, ['c14_wout', 'c14_boozmn', 'c14_direct', 'c14_order', 'c14_write'], variant=v)


@check('C15')
def c15(r):
    r.assumptions = ['undefined behaviour is what the address and undefined behaviour sanitizers, the assertions of Eigen and libstdc++, and differences between contents of fresh memory show']
    r.explanation = 'Every valid shape in the bounds (and every subset of small mode lists) goes through load, run, write, read, write, run: with sanitizers and assertions; twice with different contents of fresh heap and stack memory; and with pattern-filled automatic variables. Each of 23 operations, failing ones included, is done four times and must not leave memory behind each time.'
    exe = {v: vf.build_harness('io', v, hflags=['-DVF_MALLOC'] if v != 'asan' else []) for v in ('rel', 'auto', 'asan')}
    res, sh = {}, {}
    for v in exe:
        sh[v] = Shards(exe[v], ['c15_chain'] + TH, timeout=800 if TIER == 'quick' else 7200)
        res[v] = r.shards('c15_chain_' + v, sh[v])
    r.compare_hashes('c15_automatic_variables', res['rel'], res['auto'], sh['rel'], sh['auto'], 'results depend on the contents of uninitialised automatic variables')
    io(r, ['c15_leaks'])


@check('C06')
def c06(r):
    r.assumptions = ['sequentially consistent interleavings; data shared by threads is recognised by the lockset of each 8-byte word, and only accesses to words (and to the console) without a common lock are scheduling points besides locks, barriers, atomics and the starts of threads',
                     'code of libraries that is not compiled from the repository is not instrumented']
    r.explanation = 'Every schedule within the preemption bound (3 for small, 2 for medium, 1 or 2 for the largest configurations) of 1 to 4 threads over 1 to 5 surfaces, executed by the real code under a runtime in place of libgomp and libtsan. transitions = scheduling points executed; states = distinct progress vectors of the threads. traces = configurations explored; the second part runs different objects in different threads; the third part thread counts 1 to 16 on the OpenMP runtime of the system.'
    exe = vf.build_sched()
    res = r.shards('c06_sched', Shards(exe, ['c06'] + TH, timeout=800 if TIER == 'quick' else 7200))
    if res['counters'].get('configurations_not_exhausted'): r.exhaustive = False
    obj = r.shards('c06_objects', Shards(exe, ['c06_objects'] + TH, timeout=800 if TIER == 'quick' else 7200))
    if obj['counters'].get('configurations_not_exhausted'): r.exhaustive = False
    r.cov['traces_validated_against_impl'] += res['counters'].get('schedules', 0) + obj['counters'].get('schedules', 0)
    io(r, ['c06_real'])


@check('C13', 'fault_enumeration')
def c13(r):
    r.assumptions = ['the netCDF library reports the failures of the operations it performs (short writes and truncated data sections are hidden by it and out of scope)',
                     'Eigen is not exception safe when memory runs out; only operator new is made to fail']
    r.rule = 'every k-th intercepted operation of every scenario fails with every code of the set, before or after having had its effect; then every second operation after it. Not-found codes of inquiries are answers and not failures.'
    r.explanation = 'Intercepted: the 205 status-returning functions of the netCDF library as called by the code of the repository, the system and stdio calls on the file, and operator new. After each: an exception or the undisturbed result, nothing left open, and the same call succeeds on the same object.'
    exe = vf.build_harness('fault', 'rel', link_extra=['-rdynamic'])
    for p in ('c13_nc', 'c13_sys', 'c13_mem'): r.shards(p, Shards(exe, [p] + TH, timeout=800 if TIER == 'quick' else 7200))


# ---------------------------------------------------------------- Python

def py(r, script, parts, extra=(), timeout=800, n=None, **env):
    site = vf.build_pyext()
    for p in parts:
        r.shards(p, Shards([vf.BOOZPY, vf.VERIF + '/harness/' + script, *extra], [p] + TH, n=n, timeout=timeout if TIER == 'quick' else 7200,
                           env=vf.clean_env(PYTHONPATH=site, MPLCONFIGDIR=vf.scratch() + '/mpl', OPENBLAS_NUM_THREADS='1', **env)))


@check('C16')
def c16(r):
    r.assumptions = ['tokens, layouts and equilibria come from fixed alphabets', 'most executions of the Python command are forks of one interpreter with the output going to a file; a selection runs as separate processes']
    r.explanation = 'Every sequence of tokens up to length 4 (and every list of surfaces up to length 3 after valid beginnings), every combination of separators, every list of surfaces, every resolution around the default, all argument lists up to length 3: executed by both drivers and compared with each other (console, status, bytes of the file) and with the API calls that an independent scanner derives from the text. states = distinct meanings of input files; transitions = driver executions.'
    py(r, 'cli.py', ['c16_tokens', 'c16_layout', 'c16_surfs', 'c16_wide', 'c16_numbers', 'c16_resolution', 'c16_process', 'c16_args'], [vf.build_exe()])


@check('C17')
def c17(r):
    r.assumptions = ['matplotlib is real; plotly, which is not installed, is a module that records its arguments', 'objects and files are the results of fixed small equilibria']
    r.explanation = 'Every combination of the options (over small alphabets of values) of each plotting function x 8 shapes x object, loaded object or file; what is drawn is compared with values computed directly from the spectra, the object is compared bit for bit with its former state; all sequences of 3 plots. states = distinct (function, options, data); transitions = plots drawn.'
    py(r, 'plotcheck.py', ['c17_surfplot', 'c17_symplot', 'c17_modeplot', 'c17_wireplot', 'c17_inputs', 'c17_sequences', 'c17_changes'])


@check('C18')
def c18(r):
    r.assumptions = ['Python, numpy and pybind11 are correct', 'freed memory is filled with a pattern, so that arrays which refer to it are noticed']
    r.explanation = 'Every input attribute x array shape x layout, kind and type of the assigned array; all scalars x boundary values and wrong types; every output attribute x 3 selections x 3 equilibria compared with the file; every split of the arguments of init_from_vmec between positional and keyword x layout; all sequences of 3 (thorough: 4) of 14 operations, after two beginnings, on an object whose arrays are held and compared after each operation. states = distinct cases and prefixes of sequences; transitions = attribute accesses and operations.'
    py(r, 'pyattr.py', ['c18_layouts', 'c18_scalars', 'c18_outputs', 'c18_names', 'c18_vmec', 'c18_sequences', 'c18_leaks'], MALLOC_PERTURB_='165')
