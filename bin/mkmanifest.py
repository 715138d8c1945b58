#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after editing)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(here, 'bin', 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bin/setup.sh',
    'hooks': C['hooks'],
    'checks': [],
    'not_applicable': [],
    'notes': 'See DESIGN.md. bin/vrun <id> builds the harness of one property from /repo\'s working tree (regenerated protobuf code through a build overlay) and runs it.',
}
for p in props:
    if p in C['checks']:
        c = C['checks'][p]
        m['checks'].append({'property': p, 'quick_cmd': f'bin/vrun {p}', 'thorough_cmd': f'bin/vrun {p}',
                            'evidence_file': f'evidence/{p}.json', 'technique': c['technique'],
                            'level': c.get('level', 'exploration'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': C['na'].get(p, 'check not built yet')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
