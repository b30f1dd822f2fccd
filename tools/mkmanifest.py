#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
BE = 'bounded exhaustive enumeration of inputs on the real code against an executable specification'
T = {  # id: (technique, note)
 'C01': (BE, 'Every shape, impulse, coefficient pair and resolution ladder in the bounds runs on the real code and is compared with independently evaluated defining integrals (tolerance 2e-12). Values outside the alphabets are not covered.'),
 'C02': (BE + ' (pointwise identities of Boozer coordinates)', 'All shapes x sign combinations x seeds in the bounds, 12 points of each surface, tolerance 1e-5 (truncation); G and I exact on all surfaces.'),
 'C03': (BE + ' (fixed points and reparametrisations)', 'All Boozer-coordinate inputs of the bounded shapes come back unchanged; every single-mode deformation of the angles gives the same spectra.'),
 'C04': ('bounded exhaustive enumeration of symmetry-related pairs of runs of the real code', 'Every symmetry operation x bounded shapes; relations hold within 1e-11 of the magnitude.'),
 'C05': ('exhaustive enumeration of surface-selection sequences on the real code', 'All sequences with repetition up to length 5 of 3 surfaces, all ordered subsets of 5, all progressions over 14; compared with single-surface runs.'),
 'C06': ('stateless exploration of all thread schedules within a preemption bound, on the real code under a controlled OpenMP runtime', 'All schedules of up to 4 threads and 5 surfaces within 1 to 3 preemptions (free switches unlimited), lockset-based scheduling points; thread counts 1 to 16 with the system runtime. Weak memory effects are not covered.'),
 'C07': ('exhaustive enumeration of operation sequences on the real object', 'All sequences up to length 3 of 22 operations and up to length 4 of 11 operations, followed by every load/run/write; compared with fresh objects.'),
 'C08': (BE + ' (parsed console output)', 'Every shape in the bounds at verbosity 0-3, terminal captured, every printed number recomputed.'),
 'C13': ('exhaustive enumeration of failures (single, and pairs) of every file operation on the real code', 'All failures of netCDF calls (several codes, before or after the effect), system calls and operator new in each scenario; pairs of netCDF failures. Failures that the netCDF library hides are out of scope.'),
 'C14': ('exhaustive enumeration of single defects and of call sequences on the real code', 'Every single defect of the alphabet for each shape, all call sequences up to length 4, with and without sanitizers. Multiple simultaneous defects are not covered.'),
 'C15': ('exhaustive enumeration of bounded shapes on sanitizer-instrumented real code', 'Every valid shape in the bounds through the whole chain; sanitizers, assertions, and independence of memory contents. Reads of uninitialised memory that influence nothing observable are not detected.'),
 'C09': (BE + ' (impulses of the linear radial regridding)', 'Exhaustive over modes x full-grid surfaces x shapes in the bounds, exploiting linearity; dense data check the superposition.'),
 'C10': (BE, 'Every shape x symmetry x flux x storage type in the bounds, read into fresh and used objects; exact comparison with the values put into the file by an independent encoder.'),
 'C11': (BE + ' (complete decoded file contents)', 'Every shape x symmetry x flux x selection in the bounds; independent decoder; two contents of fresh memory. One known finding: writing sets phip[0] of the object to zero.'),
 'C12': ('exhaustive enumeration of write/read histories on the real code', 'All shapes x symmetry x flux x selection x reader states; bit-for-bit comparison.'),
 'C16': ('exhaustive enumeration of bounded input texts executed by both drivers', 'All token sequences up to length 4 of 10 tokens, all separators, surface lists and resolutions in the bounds; both drivers, and the API calls derived by an independent scanner.'),
 'C17': ('exhaustive enumeration of option combinations of the real plotting functions', 'All option combinations over small value alphabets x shapes x kinds of input; drawn data compared with independently computed values; all sequences of three plots.'),
 'C18': ('exhaustive enumeration of attribute accesses and of operation sequences on the real extension module', 'All attributes x shapes x memory layouts and types, all argument splits, all sequences of 3 of 14 operations with held arrays. The set of values is small.'),
 'C19': (BE, 'All (mboz, nboz, nfp, symmetry, number of surfaces) in the bounds, each mode with its own amplitude.'),
 'C20': ('exhaustive enumeration of equivalent input representations on the real code', 'All permutations, splits, paddings, subsets and sign conventions of small mode lists.'),
}
T.update(json.load(open(V + '/tools/manifest_extra.json')) if os.path.exists(V + '/tools/manifest_extra.json') else {})
LEVEL = {'C13': 'fault_enumeration'}
checks = []
for p in props:
    i = p['id']
    if i not in T: continue
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique='model checking: ' + T[i][0], level=LEVEL.get(i, 'model_checking'), level_note=T[i][1]))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in T],
         notes='Checks rebuild from /repo into /verif/build/<hash of the sources>. No hooks in /repo are needed: scheduling, faults and plotting are controlled by interposed runtimes.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
