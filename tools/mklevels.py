"""Sets levels.json and the per-property level notes from the evidence of the last run (run all checks first)."""
import glob, json
V = '/verif/'
notes = json.load(open(V + 'tools/notes.json'))
levels = {}
for f in sorted(glob.glob(V + 'evidence/P*.json')):
  d = json.load(open(f))
  c, p = d['coverage'], d['property']
  assert not d['violations'] and not c.get('partial') and not c['undecided'], p
  a, s = c['obligations_all_sizes'], c['obligations_stated_sizes']
  bounded = sorted({b['contract'] for b in c['bounded_contracts']})
  if s:
    levels[p] = 'other'
  t = 'All %d obligations hold for all real inputs and all array lengths.' % a if not s else (
      '%d obligations hold for all real inputs at every array length, %d for all real inputs at the stated small array lengths (named @...).' % (a, s) if a else
      'All %d obligations hold for all real inputs at the stated small array lengths (named @...): bounded in size.' % s)
  if bounded:
    t += ' Bounded stand-ins, not counted: ' + '; '.join(bounded) + '.'
  notes['notes'][p] = t + ' ' + 'Tree layouts and option settings are the listed configurations. Trusts JAX tracing, the primitive semantics of jaxvc.interp (self-tested against JAX) and the solvers; reals for floats, loops partial correctness only.'
json.dump(levels, open(V + 'levels.json', 'w'), indent=1)
json.dump(notes, open(V + 'tools/notes.json', 'w'), indent=1)
print(len(levels), 'other')
