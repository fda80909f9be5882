#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (between the two marker comments)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(H, 'seeded')
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json'))); e = lambda t: ' '.join(str(t).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (d, m.get('caught_by', m['property']), e(m['what_it_breaks']), e(m['needs'])))
p = os.path.join(H, 'DESIGN.md'); t = open(p).read(); a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
t = t[:t.index(a) + len(a)] + '\n'.join(rows) + '\n' + t[t.index(b):]
open(p, 'w').write(t)
