#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, text, why, files, mech, level='other', technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na))


AI = 'path-sensitive abstract interpretation of the LLVM IR'
SCHED = 'Interference by every other thread root is over-approximated with lock sets found by the analysis itself. '
LIB = 'libstdc++ containers, the mutexes and the system calls are modelled by their documented contracts.'

exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

from dw.registry import claimed
claimed = set(claimed())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
        assert len(p['title']) <= 80, p['title']
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q dw check.py',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'technique': p['technique'] or AI, 'level': p['level'], 'level_note': p['note']}
                  for p in P if p['id'] in claimed],
       'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'The rules for this property are not finished.'} for p in P if p['id'] not in claimed]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print('claimed', sorted(claimed), 'not', [p['id'] for p in P if p['id'] not in claimed])
