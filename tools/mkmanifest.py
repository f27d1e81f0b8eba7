#!/usr/bin/env python3
"""Writes MANIFEST.json from vcgen/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/vcgen')
import checks
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
out = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo are needed: contracts are attached from /verif to the sources of /repo on every run.'}
LN = 'Every obligation generated from the current source is discharged for all inputs satisfying the stated preconditions. '
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        note = LN + s.get('note', '') + ' Assumes: the symbolic executor (vcgen), clang/go front ends, z3/cvc5, contracts of stubbed third-party headers' + (', ' + '; '.join(s['trusted']) if s.get('trusted') else '') + '.'
        if s.get('bounded'):
            note += ' Bounded parts (not proved): ' + '; '.join(s['bounded']) + '.'
        out['checks'].append({'property': i, 'quick_cmd': f'python3-vt vcgen/run.py {i}', 'thorough_cmd': f'python3-vt vcgen/run.py {i}',
                              'technique': 'contract-based deductive verification (verification conditions from the compiled real source, discharged by SMT)',
                              'level': s.get('level', 'proof'), 'level_note': note})
    else:
        out['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'no contracts built for this part within the session')})
json.dump(out, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(out['checks']), 'claimed', len(out['not_applicable']), 'not applicable')
