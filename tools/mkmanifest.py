#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule modules present and the not-applicable list."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'rules')]
NA = {
    'C40': 'Equality of computed samples with closed-form curves for all event lists is a numeric property over values; '
           'static analysis without execution or solving cannot decide it (the structural part is C19, C18).',
    'C41': 'Exact sample positions depend on floating point accumulation at run time; no static rule decides it.',
    'C42': 'The mixing coefficients are values computed from channel data; comparing them with the tables for all inputs '
           'needs execution or symbolic evaluation.',
    'C43': 'Round trip through an external encoder/decoder pair is a relation between run-time byte streams.',
    'C44': 'Accuracy of measured durations is a property of run-time measurements.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in props:
    f = os.path.join(V, 'rules', i.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module(i.lower())
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': m.TECHNIQUE,
                       'level': getattr(m, 'LEVEL', 'other'), 'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
man = {'version': 1, 'setup_cmd': 'python3 lib/facts.py', 'checks': checks, 'not_applicable': na,
       'notes': 'All checks inspect the type-checked program of /repo (MIR extracted by driver/main.rs, two feature '
                'configurations) on every run; nothing of /repo is executed. Known findings: known-findings.txt.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
