"""Write DESIGN.md from tools/design.in.md, the property texts, known_findings.txt and seeded/*/meta.json (run by hand)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from ztsa import proptext, checks, notapp
rows = []
CL = checks.CLIENTS_OF
for p in proptext.P:
    i = p['id']
    if i in notapp.NA:
        continue
    c = checks.REGISTRY[i]
    rows.append('**%s. %s** (%s). %s%s Bounds and reach: %s' % (
        i, p['title'], ', '.join(a.replace('src/libzt/', '') for a in p['anchors']['files'][:6]) + (' ...' if len(p['anchors']['files']) > 6 else ''),
        '' if c.explanation == checks.LEMX else c.explanation + ' ',
        ('Lemma clients: %s.' % ', '.join('`clients/%s.c`' % x for x in CL.get(i, []))) if i in CL else '', c.note))
fixes = ['* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2` ', l) for l in open(V + '/known_findings.txt').read().splitlines() if l.startswith('fixed:')]
seeds = ['| bug | property, check | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
na = ['* **%s** %s: %s' % (k, next(p['title'] for p in proptext.P if p['id'] == k), v) for k, v in notapp.NA.items()] or ['Nothing so far.']
s = open(V + '/tools/design.in.md').read()
for k, v in (('PROPS', '\n\n'.join(rows)), ('FIXES', '\n'.join(fixes)), ('SEEDS', '\n'.join(seeds)), ('NA', '\n'.join(na)), ('RF', 'about 150')):
    s = s.replace('@@%s@@' % k, v)
open(V + '/DESIGN.md', 'w').write(s)
