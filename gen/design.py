#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property and rule texts, the planted bugs and the findings."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import props
P = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); P[d['id']] = d
M = json.load(open(os.path.join(V, 'MANIFEST.json')))
T = {c['property']: c for c in M.get('checks', [])}
K = json.load(open(os.path.join(V, 'known_findings.json')))
K = K if isinstance(K, list) else K['findings']
from texts_design import HEAD, WHERE, TAIL, CAUGHT_ALSO
out = [HEAD]
out.append('## 4. Properties and how each is decided\n')
out.append('All of them use the machinery of section 2; `sa/<file>` is the rule. Bounds: none on inputs or schedules; the abstractions are those of section 3.\n')
for p in sorted(P):
    d = P[p]
    if p in props.PROPS:
        x = props.PROPS[p]
        out.append('### %s %s\n' % (p, d['title']))
        out.append('*Rule (`sa/%s`).* %s.\n' % (WHERE[p][0], x['rule'][0].upper() + x['rule'][1:]))
        if WHERE[p][1]: out.append('*Notes.* %s\n' % WHERE[p][1])
na = M.get('not_applicable', [])
out.append('## 5. Not applicable\n')
for n in na: out.append('* **%s %s** — %s' % (n.get('property') or n.get('id'), P[n.get('property') or n.get('id')]['title'], n['reason']))
if not na: out.append('None.')
out.append('')
out.append('## 6. Defects found\n')
out.append('Each was shown against the real code (a small program, or a schedule forced with sleeps) before being repaired. Repaired with a `fix:` commit:\n')
for f in K:
    if f['status'] == 'fixed': out.append('* %s `%s` %s' % (f['property'], f['commit'], f['record'].split(' ', 3)[3]))
op = [f for f in K if f['status'] != 'fixed']
out.append('\nRecorded as open findings (known_findings.json):\n')
for f in op: out.append('* %s `%s` %s' % (f['property'], f['key'], f['record']))
if not op: out.append('* none')
out.append('')
out.append('## 7. Planted bugs and what catches them\n')
out.append('Each was written from a property\'s text and the code, validated in a scratch copy (builds, stable tests pass, demo passes without and fails with it), then run against the checks. All are caught by the check of the property they were written for.\n')
out.append('| planted bug | caught by | what it breaks |\n|---|---|---|')
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/')))
out.append('')
out.append(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
