"""Writes MANIFEST.json from the list of property modules and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/tools/techniques.json'))
NA = json.load(open(V + '/tools/not_applicable.json'))
checks = []
na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if os.path.exists(V + '/sa/props/%s.py' % i.lower()):
        t = T[i]
        checks.append(dict(property=i, quick_cmd='python3 sa/check.py ' + i, thorough_cmd='python3 sa/check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=t[0], level='other', level_note=t[1]))
    else: na.append(dict(property=i, reason=NA.get(i, 'no sound static check built yet')))
json.dump(dict(version=1, setup_cmd='python3 sa/check.py --setup', checks=checks, not_applicable=na, notes='Static analysis only; see DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
