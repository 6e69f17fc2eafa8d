#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'package/inference/'
props = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    props.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[P + f for f in files],
                                   mechanism=[dict(name=n, where=P + w) for n, w in mech],
                                   observe_at=list(observe), hook_needed=None),
                      technique=technique, note=note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')

man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
           notes='No hooks are needed: every check drives the public API. Repairs of defects '
                 'found are the "fix:" commits in /repo, listed in known_findings.jsonl.')
for p in sorted(props, key=lambda p: p['id']):
    assert os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')), p['id']
    man['checks'].append(dict(
        property=p['id'], quick_cmd='bash run.sh %s' % p['id'],
        thorough_cmd='bash run.sh %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=p['technique'], level='exploration', level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
