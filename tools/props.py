#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
CHECKS = {} # id -> dict
NA = {}     # id -> reason

def prop(pid, title, statement, over, qtext, why, files, mech, check=None, technique=None, note=None, na=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
    if na: NA[pid] = na
    else: CHECKS[pid] = {'property': pid, 'quick_cmd': 'python3 checks/%s' % check, 'thorough_cmd': 'python3 checks/%s --thorough' % check,
                         'technique': technique, 'level': 'other', 'level_note': note, 'evidence_file': 'evidence/%s.json' % pid}

exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [CHECKS[p['id']] for p in P if p['id'] in CHECKS],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Static analysis: abstract interpretation over the LLVM IR of the current sources; see DESIGN.md.'}
json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, s)
    print('valid', len(P))
except ImportError: print('no jsonschema')
