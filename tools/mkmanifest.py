"""Regenerate MANIFEST.json from the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in P:
    i = p['id']
    if i in props.PROPS:
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': props.TECH.get(i, 'abstract interpretation of type-checked MIR (static, path-sensitive)'),
                       'level': 'other', 'level_note': props.NOTE.get(i, props.NOTE_DEFAULT)})
    else: na.append({'property': i, 'reason': props.NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: a rustc driver dumps the type-checked MIR of /repo (both feature sets); an abstract interpreter decides each property. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
