#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run it after changing PROPERTIES
or harness/config.py."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import config

PROPERTIES = []
TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = []

def P(id, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files.split(),
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in mechanism]}})
    TECHNIQUE[id] = ' '.join(technique.split())
    NOTE[id] = ' '.join(note.split())

exec(open(os.path.join(VERIF, 'tools', 'properties_text.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
checks = []
for p in PROPERTIES:
    i = p['id']
    if i not in config.PROPERTIES:
        assert i in [n['property'] for n in NOT_APPLICABLE], i
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 harness/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 harness/check.py %s --tier thorough' % i,
        'technique': TECHNIQUE[i],
        'level': 'exploration',
        'level_note': NOTE[i]})
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 harness/build.py',
               'checks': checks, 'not_applicable': NOT_APPLICABLE}, f, indent=1,
              ensure_ascii=False)
    f.write('\n')
print(len(PROPERTIES), 'properties,', len(checks), 'checks')
