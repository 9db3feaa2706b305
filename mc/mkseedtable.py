"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (no check uses this)"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
by = {}
for name in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, name, 'meta.json')))
    by.setdefault(m['property'], []).append((name, m))
for prop in sorted(by):
    print(f'- **{prop}**: ' + '; '.join(f'`{n}` ({m["needs"]})' for n, m in by[prop]) + '.')
