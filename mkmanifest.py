#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py."""
import json, sys
sys.path.insert(0, 'lib')
from config import CONFIG
NOTES = json.load(open('lib/notes.json'))
checks = []
for p, c in CONFIG.items():
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': NOTES[p]['technique'], 'level': c['level'], 'level_note': NOTES[p]['note']})
json.dump({'version': 1, 'setup_cmd': 'true',
           'hooks': {'guard': 'kani', 'enable': 'cargo kani sets cfg(kani); the contract harnesses inside the crate also need RUSTFLAGS="--cfg dlhn_contracts"',
                     'source_commits': ['03954ff']},
           'checks': checks, 'not_applicable': []}, open('MANIFEST.json', 'w'), indent=1)
