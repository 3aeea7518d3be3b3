#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and stages.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from stages import STAGES, NOT_APPLICABLE, HOOKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
claimed = sorted({p for s in STAGES.values() for p in s['props']})
checks = []
for p in claimed:
    st = [n for n, s in STAGES.items() if p in s['props']]
    kinds = {'R': 'replays every edge of the explored state graph, and random walks, into the crate',
             'T': 'judges traces recorded from the crate', 'M': 'explores the design exhaustively',
             'P': 'enumerates programs; the compiler and, where it accepts, running them give the code\'s answer'}
    mods = '; '.join(f"{STAGES[n]['module']}.tla ({kinds[STAGES[n]['kind']]})" for n in st)
    checks.append({
        'property': p,
        'quick_cmd': f'python3 bin/check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 bin/check.py {p}',
        'technique': 'TLA+ specification checked by TLC, bound to the code by replay and trace validation',
        'level': 'model_checking',
        'level_note': NOTES.get(p, '') + (' ' if p in NOTES else '') + 'Decided by: ' + mods +
        '. Exhaustive within the bounds of the module constants, sampled beyond them; trusts TLC and the harness adapter.'})
na = [{'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')} for p in props if p['id'] not in claimed]
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
