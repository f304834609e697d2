#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import PROPS, NOTES, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py --thorough %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection, seeded search: ' + NOTES[i][0],
            'level': 'exploration',
            'level_note': NOTES[i][1] + ' Sampled, not exhaustive: a clean batch is evidence, not proof. '
                'Trusts GLib, libc, clang and the simulator; every violation is replayed in a fresh process before it is reported.',
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3 build.py',
    'hooks': {
        'guard': 'none',
        'enable': 'No hooks in /repo: the checks compile /repo/src with clang, rename the library\'s references to system calls, '
            'clocks and GLib locks with objcopy (sim/redefine.syms) and instrument its memory accesses with -fsanitize-coverage.',
        'source_commits': [],
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'Fixed and known findings are in known_findings.txt, the design in DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
