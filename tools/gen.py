#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
out = []; checks = []; na = []
for p in PROPS:
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p.get('over', ['inputs']), 'text': p['q']},
         'why_tests_cant': p['tests'],
         'anchors': {'files': p['files'], 'mechanism': p['mech']}}
    assert len(p['title']) <= 80, p['id']
    out.append(json.dumps(d))
    if p['id'] in NA: na.append({'property': p['id'], 'reason': NA[p['id']]}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 engine/vf.py %s quick' % p['id'], 'thorough_cmd': 'python3 engine/vf.py %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'bounded symbolic execution of the compiled code (clang LLVM IR translated to C), decided by CBMC/SAT',
                   'level': 'model_checking',
                   'level_note': p['note']})
open(V + '/properties.jsonl', 'w').write('\n'.join(out) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/vf.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check regenerates its encoding from /repo (no hooks are compiled into /repo).'}
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
D = [open(HERE + '/design_head.md').read(), '## Properties\n']
for p in PROPS:
    D.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in NA: D.append('Not applicable: %s\n' % NA[p['id']]); continue
    D.append('* Decided by: %s' % p.get('design', 'bounded symbolic execution of the compiled component against a reference model in the harness, plus memory safety of every access.'))
    D.append('* Bounds: %s' % p['q'])
    D.append('* Why tests cannot: %s' % p['tests'])
    D.append('* Anchors: %s' % ', '.join('`%s`' % f for f in p['files']))
    D.append('* Note: %s\n' % p['note'])
D.append(open(HERE + '/design_tail.md').read())
if os.path.exists(HERE + '/seeds.json'):
    D.append('\n## Planted bugs\n\nEach lives in `seeded/`. Result of the quick check of its property on the patched tree:\n')
    D.append('| bug | needs | result |\n|---|---|---|')
    for n, r in sorted(json.load(open(HERE + '/seeds.json')).items()): D.append('| %s | %s | %s |' % (n, r['needs'], r['result']))
open(V + '/DESIGN.md', 'w').write('\n'.join(D) + '\n')
print(len(out), 'properties', len(checks), 'checks')
