#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
TECH = {'model_checking': 'explicit-state model checking of the real code: exhaustive enumeration of reachable states and operation histories within bounds, each transition compared with a reference model',
        'exploration': 'bounded exhaustive model checking of the real code: every case of a bounded input space executed and compared with a reference model',
        'fault_enumeration': 'exhaustive enumeration of environment answers'}
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    note = 'Holds for every case within the stated bounds, executed on the code compiled from /repo under AddressSanitizer; beyond the bounds by the small scope argument in DESIGN.md. '
    note += 'Bounds (quick): ' + (c['bounds']['quick'] if isinstance(c['bounds'], dict) else c['bounds']) + '. Assumes: ' + '; '.join(c['assumptions']) + '.'
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=TECH[c['level']], level=c['level'], level_note=note))
m = dict(version=1, setup_cmd='python3 -m py_compile check.py checks.py texts.py config.py && gcc --version >/dev/null && clang --version >/dev/null',
         checks=checks, not_applicable=[],
         notes='No hooks in /repo: the harnesses use the public interface only and take the environment (allocator, read, write, vsnprintf, C library heap) through the interface or link-time wrapping. known_findings.txt lists the repaired defects; nothing is suppressed.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
