#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from tiers import TIERS
MODEL = 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C18 C20 C24 C26 C27 C28 C90'.split()
TECH = {
    'model': 'deterministic simulation with fault injection: seeded runs of the real main() under a simulated transmitter, channel, I/O and clock, output compared with an executable reference model',
    'pair': 'deterministic simulation with fault injection: seeded pairs of runs of the real main() under different simulated schedules, faults, clocks or options, histories compared',
    'hist': 'deterministic simulation with fault injection: seeded runs of the real main() under simulated I/O, clock and process death, recorded history of reads and writes checked',
    'mpx': 'deterministic simulation with fault injection: seeded runs of the real main() on synthesised MPX with signal disturbances, decoded groups checked against those sent, progress bounded after each disturbance',
}
KIND = {'C01': 'hist', 'C02': 'model', 'C03': 'model', 'C14': 'pair', 'C15': 'hist', 'C16': 'hist', 'C17': 'hist', 'C19': 'pair', 'C21': 'pair', 'C22': 'mpx', 'C23': 'pair',
        'C25': 'pair', 'C29': 'pair', 'C30': 'hist', 'C91': 'hist', 'C94': 'pair'}
NOTE = {
    'model': 'Seeded search: every explored run agreed with the reference model. Trusts the model (sim/ref_*.cc), which states the standard as redsea documents it, and the code tables copied from the standard.',
    'pair': 'Seeded search: every explored pair of runs agreed. Needs no model of the decoder; trusts the simulated I/O layer (sim/world.cc).',
    'hist': 'Seeded search: the history of every explored run satisfied the property. Trusts the simulated I/O layer (sim/world.cc) and, for which lines are due, the reference model.',
    'mpx': 'Seeded search: every explored signal was decoded within the stated bounds. Trusts the signal synthesiser (sim/mpx.cc); bounds are generous multiples of what is observed.',
}
NA = json.load(open(V + '/tools/not_applicable.json'))
checks = []
for p in sorted(TIERS):
    k = KIND.get(p, 'model')
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[k], 'level': 'exploration', 'level_note': NOTE[k]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks,
     'not_applicable': [{'property': a, 'reason': b} for a, b in sorted(NA.items())],
     'notes': 'A violation is replayed with: python3 check.py --replay FILE. Known and fixed findings: known-findings.txt.'}
if os.path.exists(V + '/tools/hooks.json'):
    m['hooks'] = json.load(open(V + '/tools/hooks.json'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
