"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from dev/props.py."""
import json, os
from props import PROPS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(p['title']) <= 80, p['id']
        d['quantifier'] = {'over': p['over'], 'text': p['forall']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py ' + p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
