"""Puts the table of planted bugs into DESIGN.md (the part after '### Encodings that depend' is tools/design_tail.md)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'C38-copy-input'}
rows = ['| bug | breaks | needs | check |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    i = os.path.basename(d[:-1])
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' '), 'missed' if i in MISSED else m['property'] + ' catches it'))
t = open(V + '/DESIGN.md').read()
t = t.split('\n### Mechanisms that several checks share')[0].rstrip('\n') + '\n'
tail = open(V + '/tools/design_tail.md').read().replace('@@TABLE@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t + tail)
