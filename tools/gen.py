#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the tables below)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe))


TYPESTATE = 'path-sensitive typestate dataflow (abstract interpretation to fixpoint) over monomorphic MIR'
TNOTE = ('Every abstract path of the combinator, instantiated with arbitrary child parsers, stream, errors and values given only by their '
         'contract, is compared with a specification automaton. Exhaustive over that abstraction, no execution and no solver; arities and '
         'repetition bounds are the instantiated ones. Trusts the contract models, the MIR dumper and rustc.')

exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis only: no check executes code of the library. No hooks are needed in /repo; its commits on top of the base are fix: commits only.'}
for p in PROPS:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 engine/check.py %s quick' % p['id'],
                            'thorough_cmd': 'python3 engine/check.py %s thorough' % p['id'], 'technique': p['technique'], 'level': 'other',
                            'level_note': p['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
