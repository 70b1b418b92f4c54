"""Writes MANIFEST.json from properties.jsonl, the contract files present and the notes below."""
import json, os
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
levels = json.load(open(V + '/levels.json')) if os.path.exists(V + '/levels.json') else {}
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists('%s/jaxvc/contracts/%s.py' % (V, i.lower())) and i not in NOTES['not_applicable']:
    checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                       technique='contracts on the real functions, verification conditions from their traced code, discharged by normal form/z3/cvc5',
                       level=levels.get(i, 'proof'),
                       level_note=NOTES['notes'].get(i, NOTES['default'])))
  else:
    na.append(dict(property=i, reason=NOTES['not_applicable'].get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Contracts live in jaxvc/contracts/pNN.py; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
