#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import props
from texts import T, NA

out = []
checks = []
na = []
for pid in sorted(T):
    t = T[pid]
    out.append({'id': pid, 'title': t['title'], 'statement': t['statement'], 'quantifier': {'over': t['over'], 'text': t['qtext']},
                'why_tests_cant': t['why'], 'anchors': {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mech']]}})
    assert len(t['title']) <= 80, pid
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    else:
        assert pid in props.PROPS, pid
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
                       'technique': t['technique'], 'level': props.PROPS[pid]['level'], 'level_note': t['note']})
for pid in props.PROPS:
    assert pid in T, pid
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in out))
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo; every check compiles /repo\'s current sources to LLVM IR and analyses that.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
