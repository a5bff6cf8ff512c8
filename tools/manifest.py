#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOTES
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p,
        'quick_cmd': f'tools/check.py {p} quick',
        'thorough_cmd': f'tools/check.py {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'contracts on the functions of /repo, discharged by Verus (deductive verification); bounded search against a reference for failing inputs',
        'level': d['level'],
        'level_note': NOTES[p],
    } for p, d in PROPS.items()],
    'not_applicable': [],
    'notes': 'No hooks in /repo: the verified crate is extracted from /repo/src on every run (extract/), contracts live in contracts/. See DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
