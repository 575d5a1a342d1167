#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TQ = "The stable tests never run this code (their data files are not available) and the rest compare a few recorded files; "


def path(f):
    return f if f.startswith('scripts/') else 'dolfyn/' + f


def P(id, title, statement, over, qtext, why, files, mech, level, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    ns = len(re.findall(r'[.;?!](\s|$)', re.sub(r'\b(e\.g|i\.e|incl)\.', '', statement)))
    assert statement.count('. ') <= 2, (id, 'too many sentences')
    a = dict(files=[path(f) for f in files],
             mechanism=[dict(name=n, where=path(w)) for n, w in mech],
             observe_at=observe or [], hook_needed=None)
    if state:
        a['state'] = state
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                       why_tests_cant=why, anchors=a), level, technique, note))


exec(open(os.path.join(V, 'tools', 'props_text.py')).read())



def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p['id'], quick_cmd="bash run.sh %s quick" % p['id'],
                          thorough_cmd="bash run.sh %s thorough" % p['id'],
                          evidence_file="evidence/%s.json" % p['id'],
                          technique=t, level=l, level_note=n) for p, l, t, n in PROPS],
             not_applicable=[],
             notes="Pure-Python package: no hooks in /repo, the checks import the working tree's source directly. "
                   "See DESIGN.md.")
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    import importlib, sys
    sys.path.insert(0, V)
    for p, l, *_ in PROPS:
        src = open(os.path.join(V, 'mc', 'props', p['id'].lower() + '.py')).read()
        assert 'LEVEL = "%s"' % l in src, (p['id'], l)
    print(len(PROPS), 'properties')


main()
