"""Writes MANIFEST.json from the table below (development helper)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'model_checking'
CLAIMED = {}


def claim(prop, technique, note, level=MC):
    CLAIMED[prop] = (technique, level, note)


exec(open(os.path.join(V, 'mc', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, lv, n = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python -B mc/run.py {i}',
                           thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python -B mc/run.py {i}',
                           technique=t, level=lv, level_note=n))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B mc/setup_check.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
