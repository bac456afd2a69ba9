#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the specs present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
notes = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/gv/specs/%s.py' % i.lower()):
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification (contracts on the real C++ extracted from the clang AST; obligations discharged by ring normalisation, z3, cvc5)',
                       'level': 'proof', 'level_note': notes.get(i, notes['default'])})
    else:
        na.append({'property': i, 'reason': notes.get('na-' + i, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
