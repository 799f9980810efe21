#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from vf import props
NA = {}
NOTE = ('Verus discharges every obligation of the listed functions for all inputs, generated on each run from /repo/src. '
  'Trusted: the mechanical extraction and its rewrites (DESIGN.md), assumed contracts of std, byteorder and bitflags, Verus, vstd and Z3. '
  'Where the verifier gives no answer after a change, a bounded search of the real code stands in and the evidence says so.')
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.P:
        p = props.P[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': 'contract-based deductive verification (Verus) of the functions of /repo/src, extracted on every run',
            'level': 'proof', 'level_note': NOTE + (' ' + p.note if p.note else '')})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the contracts are inserted into the text extracted from /repo/src on every run.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
