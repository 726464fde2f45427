#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and comps/index.json from the one list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, comp, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    P.append(dict(id=id, comp=comp, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        anchors = {'files': p['files'], 'mechanism': [dict(name=n, where=w) for n, w in p['mechanism']]}
        if p['state']:
            anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            anchors['observe_at'] = p['observe']
        anchors['hook_needed'] = None
        fp.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                             'anchors': anchors}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'],
                   'evidence_file': 'evidence/%s.json' % p['id']} for p in P if p['comp']],
       'not_applicable': [{'property': p['id'], 'reason': p['note']} for p in P if not p['comp']],
       'notes': 'TLA+ specs in specs/, checked with TLC; drivers/ execute scripts on the real code with the '
                'stand-ins of stubs/ for numba etc.; no hooks in /repo.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(man, fp, indent=1)
    fp.write('\n')
with open(os.path.join(V, 'comps', 'index.json'), 'w') as fp:
    json.dump({p['id']: p['comp'] for p in P if p['comp']}, fp, indent=1)
    fp.write('\n')
print(len(P), 'properties')
