#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
TRUST = ('Seeded search, not exhaustive: the property held on every history, fault placement and environment explored. Trusts the reference '
         'model in sim/model.cc, gcc/ASAN, glibc and ICU; disk space is assumed to be reserved when a temporary file is extended.')
CHECKS = {
 'C01': ('seeded client/index/search histories with storage, memory and conversion faults, every search compared with a reference model', ''),
 'C02': ('seeded histories, relevancies of every search recomputed from the model of the history', ' Relevancies are compared with a relative tolerance of 1e-9.'),
 'C03': ('seeded histories of additions, cost changes and fuzzy lookups against an independent optimal-string-alignment oracle', ' Costs are non-negative.'),
 'C04': ('seeded registration histories with faults placed inside registrations, identity bijection checked throughout', ''),
 'C05': ('storage-call faults and disk quotas placed at call positions measured in a fault-free execution; invariants plus recovery after the fault', ''),
 'C06': ('allocation faults placed inside any public operation; crash detection by ASAN, model comparison and recovery', ' One known finding (sparsehash), reported as such.'),
 'C07': ('resource ledger over all seams, compared after every simulated life of all objects, with faults', ''),
 'C08': ('interleaved search clients; every search compared with the same search in a history without the others', ''),
 'C09': ('batched history compared with a single-batch and a reordered twin in other environments', ''),
 'C11': ('one history executed under several simulated environments and three builds, all outcomes compared', ''),
 'C12': ('data file truncation, corruption and open/stat/read faults at every measured call; table compared with a parser model', ''),
 'C13': ('C API histories with faults in every seam, mirrored on the C++ API', ''),
 'C14': ('indexing interrupted by faults placed inside it, invariants while interrupted and convergence after the repeat', ''),
 'C15': ('filter and exclusion histories of several clients against the model', ''),
 'C16': ('online search histories against the model', ''),
 'C17': ('operation histories over result collections with allocation faults, against a model of stable ranking', ''),
 'C18': ('value histories over aliased pools with faults and rejected text, against a model', ''),
 'C19': ('torn, corrupted and spliced text with converter faults, against an independent tokeniser and decoder', ''),
 'C24': ('histories of Python objects in an embedded interpreter with faults in every seam, each call mirrored on the C++ interface, ASAN and the resource ledger deciding lifetimes', ' The interpreter and boost.python are the installed ones, uninstrumented.'),
 'C25': ('simulated cost (executed basic-block edges, exactly repeatable) of every lookup of a seeded history bounded by the branches the cost model allows, calibrated on the same code and index', ' Cost is counted in executed edges of the library, not in wall time; the bound leaves a factor of three.'),
 'C20': ('configuration histories with faults against a three-layer model of the cost table', ''),
}
CHECKS_EXTRA = {}
try:
    from importlib import util
    s = util.spec_from_file_location('check', V + '/check.py'); m = util.module_from_spec(s); s.loader.exec_module(m)
    if 'C10' in m.PLAN:
        CHECKS['C10'] = ('real threads under a seeded cooperative scheduler that preempts at instrumented memory accesses; per-thread results compared '
                         'with the thread run alone, plus happens-before race detection', ' Interleavings are sequentially consistent; races are reported from happens-before.')
except Exception as e:
    raise
NA = {
 'C21': 'A pure function of one string: no schedule, time, I/O or partial failure takes part (converter failures are decided by C19 and C06, the history aspects by C18).',
 'C22': 'A pure relation between values without history, schedule or fault: simulation has nothing to vary.',
 'C23': 'A fixed table written by straight-line code from constants: no history, schedule or environment enters (faults while loading tables are decided by C12 and C20).',
}
if 'C10' not in CHECKS:
    NA['C10'] = 'Check under construction.'
out = {'version': 1, 'setup_cmd': 'python3 /verif/check.py setup', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: the seams are bound at link time and by symbol interposition (operator new, malloc via --wrap, tmpfile, ftruncate, mmap, iconv_open, open/read/stat, clocks, rand). '
                'Replay a violation with: python3 /verif/check.py replay FILE'}
for p in sorted(CHECKS):
    t, n = CHECKS[p]
    out['checks'].append({'property': p, 'quick_cmd': 'python3 /verif/check.py run %s --tier quick' % p,
                          'thorough_cmd': 'python3 /verif/check.py run %s --tier thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                          'technique': T + t, 'level': 'exploration', 'level_note': TRUST + n})
for p in sorted(NA):
    out['not_applicable'].append({'property': p, 'reason': NA[p]})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
