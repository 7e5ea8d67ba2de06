"""Writes MANIFEST.json from the rules that exist and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import check
R = check.rules()
PR = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(V, 'tools', 'notapplicable.py')).read())
TECH = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in PR:
    i = p['id']
    if i in R and i not in NA:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 engine/check.py ' + i, thorough_cmd='python3 engine/check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check for it has been built yet')))
m = dict(version=1, setup_cmd="python3 engine/setup.py", checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
