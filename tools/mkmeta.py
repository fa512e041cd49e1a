#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the tables below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
P = []
def prop(id, title, statement, over, q, why, files, mech, technique=None, level='exploration', note='', built=True, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, built=built, observe=observe or []))

exec(open(os.path.join(here, 'props.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: the checks use the public API, libc call interposition (ld --wrap) and the built programs.'}
for p in P:
    if p['built']:
        man['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'] + ' --thorough',
                              'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': p['note'] or 'check under construction'})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
