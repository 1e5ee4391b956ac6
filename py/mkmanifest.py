#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
checks = []
for pid, p in plan.PLAN.items():
    if p['units']:
        tech = 'contracts on the extracted functions, every obligation discharged by Verus (units %s); bounded exploration of the real crate for what the contracts leave out and to find a failing input' % ', '.join(p['units'])
        note = 'Proved for all inputs: ' + p['proved'] + ' Bounded only: ' + p['bounded'] + ' Trusted: Verus and Z3, token extraction of py/vx.py with the rewrites in the evidence, contracts of dependencies named in trusted_base.'
    else:
        tech = 'bounded stand-in for contracts: real code driven against an independent reference'
        note = 'Not proved. Bounded: ' + p['bounded']
    checks.append(dict(property=pid, quick_cmd='python3 py/check.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 py/check.py ' + pid,
                       evidence_file='evidence/%s.json' % pid, technique=tech, level=p['level'], level_note=note))
m = dict(version=1, setup_cmd='python3 py/setup.py',
         hooks=dict(guard='--cfg verif_hooks', enable='RUSTFLAGS="--cfg verif_hooks" (set by py/runner.py when it builds the drivers in runner/)',
                    source_commits=['c78d8c8cdcc72d96ecf81bff3c999fd89305e1d8']),
         checks=checks, not_applicable=plan.NOT_APPLICABLE,
         notes='known_findings.txt lists the findings and the repaired defects; py/check.py is the one entry point; see DESIGN.md')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
