"""Writes /verif/MANIFEST.json from the implemented checks and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read(), NOTES)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NOTES['NA']:
        na.append(dict(property=p, reason=NOTES['NA'][p]))
    elif os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append(dict(
            property=p, quick_cmd='/opt/venv/bin/python check.py %s quick' % p,
            thorough_cmd='/opt/venv/bin/python check.py %s thorough' % p,
            technique=NOTES['TECH'].get(p, NOTES['DEFAULT_TECH']), level='model_checking',
            level_note=NOTES['LEVEL'].get(p, NOTES['DEFAULT_LEVEL'])))
    else:
        na.append(dict(property=p, reason='not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
         notes='All checks are run with cwd /verif; see DESIGN.md. known_findings.txt lists recorded findings.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
