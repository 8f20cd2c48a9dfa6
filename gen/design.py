"""DESIGN.md from gen/design.md, the notes, properties and seeds."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES, NA, METHOD, CAUGHT
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
P = ''
for p in props:
    i = p['id']
    if i in NOTES and i not in NA:
        P += '**%s — %s.** %s\n\n%s\n\n' % (i, p['title'], METHOD.get(i, ''), NOTES[i])
N = ''
for p in props:
    if p['id'] in NA or p['id'] not in NOTES:
        N += '* **%s — %s**: %s\n' % (p['id'], p['title'], NA.get(p['id'], 'not built yet'))
fx = [l.split(' ', 1)[1] for l in open(H + '/known-findings.txt').read().splitlines() if l.startswith('fixed: ')]
F = ''.join('* %s\n' % f for f in fx)
S = '| planted bug | property | breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    S += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), CAUGHT.get(d, 'obligation + failing input'))
t = open(H + '/gen/design.md').read()
t = t.replace('@PROPS@', P.strip()).replace('@NA@', N.strip() or 'None.').replace('@NFIX@', str(len(fx))).replace('@FIXES@', F.strip()).replace('@SEEDS@', S.strip())
open(H + '/DESIGN.md', 'w').write(t)
