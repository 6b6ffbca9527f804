#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from props import PROPS  # noqa: E402

TECH = {
    'go': 'runtime monitoring: generated code run against an online reference oracle',
    'race': 'Go race detector plus sequential-result monitor under concurrent stress',
    'gen': 'runtime monitoring of the generator process and of its outputs',
    'fault': 'fault injection with an error-propagation monitor',
}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid, p in PROPS.items():
        f.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'],
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                        'observe_at': p.get('observe', ['the generated methods of corpus types, called through their public API'])
                        if not p.get('gen') else ['the generator run as a process: exit, messages, files written, and the compiler on its output'],
                        'hook_needed': None},
        }, ensure_ascii=False) + '\n')
checks = []
for pid, p in PROPS.items():
    kind = 'gen' if p.get('gen') else 'race' if p.get('race') else 'fault' if p.get('level') else 'go'
    checks.append({
        'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH[kind], 'level': p.get('level', 'exploration'),
        'level_note': 'Held on every execution observed. ' + p['rule'] + ' Trusted: the reference model and JSON reader in harness/ (encoding/json decides validity), '
                      'the Go toolchain, and that the corpus declarations represent the supported ones.',
    })
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo are needed: everything is observed through the public API of the generator and of the generated code.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')


def section(text, mark, body):
    i = text.index('<!-- %s -->' % mark)
    j = text.index('<!-- end -->', i)
    return text[:i] + '<!-- %s -->\n' % mark + body + text[j:]


from props import CORPUS, DOCS, VALS, NT  # noqa: E402
import glob  # noqa: E402
body = ''
for pid, p in PROPS.items():
    rule = p['rule'].replace(CORPUS, 'Whole corpus. ').replace(DOCS, 'Documents by the model. ').replace(VALS, 'Values by reflection. ').replace(NT, '').strip()
    mons = ['%s' % x for x in p['monitors']] + ['%s (generator process)' % x for x in p.get('gen', [])] + ['%s (race detector)' % x for x in p.get('race', [])]
    body += '* **%s %s** \u2014 monitors: %s. %s Tests cannot settle it: %s\n' % (pid, p['title'], ', '.join(mons), rule, p['why'])
d = open(os.path.join(HERE, 'DESIGN.md')).read()
d = section(d, 'written by mk.py', body)
rows = ''
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    rows += '| %s | %s | %s |\n' % (m.split(os.sep)[-2], j['property'], j['needs'])
if rows:
    d = section(d, 'seeded', rows)
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(d)
