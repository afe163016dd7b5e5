#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below (run by hand, results are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state, observe, note, tech=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                   anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], state=state, observe_at=observe,
                                hook_needed=False)), note, tech))


def na(id, title, statement, over, qtext, why, files, mech, observe, reason):
    prop(id, title, statement, over, qtext, why, files, mech, [], observe, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tool', 'properties.py')).read())
TECH = ('static value-graph analysis: each function is summarised (gated-SSA terms over all paths, loops as symbolic folds) from the clang syntax tree '
        'and compared with the summary of a reference definition')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
nas = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='bash setup.sh', checks=[
    dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
         technique=tech or TECH, level='other', level_note=note) for p, note, tech in P if p['id'] not in nas],
    not_applicable=NA, notes=NOTES)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
