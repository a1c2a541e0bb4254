#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, 'sim/checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
PURE = ('A pure function of its arguments: no thread, clock, I/O, allocation '
        'failure or other fault that the statement depends on. There is nothing '
        'for a simulated scheduler or fault injector to decide; deciding it would '
        'be input generation, not deterministic simulation.')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [], 'not_applicable': [],
    'notes': 'No hooks in /repo: every seam is the platform interface (threads, '
             'synchronisation, clocks, files, heap), which the simulator '
             'implements by symbol interposition and compiler instrumentation. '
             'Repairs of genuine defects are the "fix:" commits in /repo; see '
             'KNOWN_FINDINGS.txt and DESIGN.md.',
}
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': './run.py %s --tier quick' % i,
            'thorough_cmd': './run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: seeded '
                         'search over ' + c['over'],
            'level': 'exploration',
            'level_note': c['note'],
        })
    elif i.startswith('N'):
        m['not_applicable'].append({'property': i, 'reason': PURE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'Check not built yet.'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
