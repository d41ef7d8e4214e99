#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/defs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from defs import P, NA, TECH
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in P:
            mech = [{'name': n, 'where': w} for n, w in d['mech']]
            o = {'id': d['id'], 'title': d['title'], 'statement': d['st'],
                 'quantifier': {'over': d['over'], 'text': d['q']},
                 'why_tests_cant': d['why'],
                 'anchors': {'files': d['files'], 'mechanism': mech}}
            if d.get('obs'):
                o['anchors']['observe_at'] = d['obs']
            assert len(o['title']) <= 80, d['id']
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for d in P:
        if d['id'] in NA:
            na.append({'property': d['id'], 'reason': NA[d['id']]})
            continue
        assert os.path.exists(os.path.join(V, 'props', d['id'].lower() + '.py')), d['id']
        tech, note = d.get('tech') or TECH['ai'], d['note']
        checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % d['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % d['id'],
                       'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the checks read the unmodified source. Known findings and repaired defects: known_findings.json.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
