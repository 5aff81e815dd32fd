#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table in props.py.
import json
from props import P, NA
with open('/verif/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harness crate has path dependencies on the crates of /repo', 'source_commits': []},
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': f"bash check.sh {p['id']} quick",
            'thorough_cmd': f"bash check.sh {p['id']} thorough",
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        }
        for p in P
    ],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
