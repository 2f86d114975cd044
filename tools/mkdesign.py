"""Regenerate DESIGN.md from tools/design, known-findings.json, techniques.json and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
M = json.loads(rd('MANIFEST.json'))
title = {}
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    title[p['id']] = p['title']
na = '\n'.join('* **%s %s.** %s' % (x['property'], title[x['property']], x['reason']) for x in M['not_applicable'])
fx = []
for f in json.loads(rd('known-findings.json'))['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    fx.append('| %s | %s | %s |' % m.groups())
sd = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.loads(rd('seeded/%s/meta.json' % d))
    sd.append('| %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m.get('caught_by', m['property'])))
t = rd('tools/design/DESIGN.in.md')
for k, v in (('PROPS', rd('tools/design/props.md')), ('NA', na), ('FIXES', '\n'.join(fx)), ('FALSE', rd('tools/design/false.md').rstrip()), ('SEEDS', '\n'.join(sd))):
    t = t.replace('@@%s@@' % k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
