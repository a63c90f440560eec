#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checked properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {'C90': 'Pure functions of their input: no schedule, clock, I/O or fault can change the result, so simulation with fault injection adds nothing over known-answer tests.',
      'C91': 'Parsing is a pure function of the input text; the parsers run for real inside the simulated commands, but no schedule or fault decides this property.'}
checks = []
for p in props:
    i = p['id']
    if i in check.RUNS:
        checks.append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s quick' % i,
                       'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with fault injection',
                       'level': 'exploration',
                       'level_note': 'seeded search over programs, schedules and fault sequences; library code runs for real, threads, clocks, storage, memory and processes are simulated'})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in props if p['id'] not in check.RUNS]
m = {'version': 1, 'setup_cmd': 'python3 /verif/sim/build.py',
     'hooks': {'guard': '', 'enable': '', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in the repository: every libc call of the library is redirected at link time, memory accesses are instrumented by the compiler.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
