#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'doc', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bin/check %s' % p['id'],
        'thorough_cmd': 'bin/check %s -tier thorough' % p['id'],
        'technique': 'deterministic simulation with fault injection: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note'] + COMMON,
    })
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: scheduling points, clock, randomness, sockets, signals and process exit are put under the simulator by a go build overlay generated from the current tree (sim/cmd/overlay). See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
