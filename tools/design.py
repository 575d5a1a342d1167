#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md from the evidence files (run after the quick checks)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated from evidence/ by tools/design.py -->'
out = [MARK, '']
P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
for f in sorted(glob.glob(os.path.join(V, 'evidence', 'C*.json'))):
    d = json.load(open(f))
    if d['property'] not in P or d['tier'] != 'quick':
        continue
    out += ['### %s  %s' % (d['property'], P[d['property']]['title']), '',
            '%d executions, about %d s on 8 cores (quick tier).' % (d['coverage']['evaluations'], max(1, round(d['wall_s']))), '']
    for s in d['coverage']['spaces']:
        n = ('%d states, %d transitions, depth %s%s' % (s['states'], s['transitions'], s['max_depth'], ', closed' if s['closed'] else '')
             if s['kind'] == 'bfs' else '%d' % s['evaluated'])
        out.append('- `%s` (%s): %s' % (s['name'], n, s['rule']))
    out.append('')


def cell(s):
    return ' '.join(str(s).split()).replace('|', '/')


def between(t, name, rows):
    """Replace what stands between <!-- name --> and <!-- /name -->."""
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + '\n' + '\n'.join(rows) + '\n' + t[j:]


def known():
    rows = ['| property | space | what |', '|---|---|---|']
    for l in open(os.path.join(V, 'known_findings.txt')):
        if l.startswith('known: '):
            d = json.loads(l[7:])
            rows.append('| %s | `%s` | %s |' % (d['property'], d['space'], cell(d['what'])))
    return rows


def seeded():
    rows = ['| bug | what it breaks | what it needs | caught by |', '|---|---|---|---|']
    L = []
    for f in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')):
        d = json.load(open(f))
        L.append((d['property'], os.path.basename(os.path.dirname(f)), cell(d['what_it_breaks']), cell(d['needs'])))
    return rows + ['| %s | %s | %s | %s |' % (i, b, n, q) for q, i, b, n in sorted(L)]


p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
i = t.find(MARK)
t = (t if i < 0 else t[:i]).rstrip('\n') + '\n\n' + '\n'.join(out)
t = between(t, 'known', known())
if os.path.isdir(os.path.join(V, 'seeded')):
    t = between(t, 'seeded', seeded())
open(p, 'w').write(t.rstrip('\n') + '\n')
