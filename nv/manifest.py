"""Regenerates properties.jsonl and MANIFEST.json from nv/props.py (run after editing it)."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from nv.props import PROPS, NOT_APPLICABLE, TECH  # noqa

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        q['quantifier'] = {'over': p['over'], 'text': p['forall']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        f.write(json.dumps(q) + '\n')
checks = []
na = [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    if not os.path.exists(os.path.join(here, 'checks', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': 'the check for it is not built yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick ./run_check.sh ' + p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough ./run_check.sh ' + p['id'],
                   'technique': p.get('tech', TECH), 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'chmod +x run_check.sh && /opt/venv/bin/python -m py_compile nv/harness.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')
