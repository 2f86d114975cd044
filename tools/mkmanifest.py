"""Regenerate MANIFEST.json from properties.jsonl, the implemented checks and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
NA = TECH.pop('_not_applicable')
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in TECH and os.path.exists(os.path.join(V, 'tools', 'props', p.lower() + '.py')):
        t = TECH[p]
        checks.append({'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p, 'thorough_cmd': 'python3 tools/check.py %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t[0], 'level': 'other', 'level_note': t[1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No static check of this property has been built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/dump.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check compiles a scratch copy of /repo\'s working tree with a rustc driver that emits monomorphised MIR, and analyses that MIR; nothing of the program is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
