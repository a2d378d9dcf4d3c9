#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from proptext.py and props.py"""
import json
import props
import proptext

with open('properties.jsonl', 'w') as f:
    for k, v in proptext.TEXT.items():
        f.write(json.dumps({'id': k, **v}) + '\n')
checks = []
for k, c in props.PROPS.items():
    checks.append({'property': k, 'quick_cmd': f'python3-vt check.py {k} --tier quick', 'thorough_cmd': f'python3-vt check.py {k} --tier thorough',
                   'evidence_file': f'evidence/{k}.json', 'technique': 'contract-based deductive verification (function contracts and loop invariants over the LLVM IR of /repo, SMT-discharged)'
                   + ('; bounded stand-in for the functions outside its reach' if c.get('native') else ''),
                   'level': 'proof', 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': props.NOT_APPLICABLE[k]} for k in proptext.TEXT if k not in props.PROPS],
     'notes': 'No hooks in /repo. Fix commits are listed in KNOWN_FINDINGS.txt. irvc/ is the verifier, contracts/ the specifications, harness/ the entry points, native/ the bounded stand-ins.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

# DESIGN.md
d = ['## Properties\n', 'Per property: contracts (functions proved, for all inputs and iterations), bounded stand-in, assumptions.\n']
for k, t in proptext.TEXT.items():
    d.append(f"### {k} {t['title']}\n")
    c = props.PROPS.get(k)
    if not c:
        d.append('Not applicable: ' + props.NOT_APPLICABLE[k] + '\n')
        continue
    d.append(c['note'] + '\n')
    d.append('Why tests cannot settle it: ' + t['why_tests_cant'] + '\n')
    d.append('Bounded stand-in (`native/' + c['native'] + '`): ' + c['bound'] + '.\n')
    for a in c.get('assumptions', []):
        d.append('* ' + a)
    d.append('')
import os
rows = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
res = json.load(open('seeded_results.json')) if os.path.exists('seeded_results.json') else {}
for b in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    mt = json.load(open(f'seeded/{b}/meta.json'))
    rows.append(f"| {b} | {mt['property']} | {mt['what_it_breaks']} | {res.get(b, 'not run yet')} |")
s = open('DESIGN.in.md').read().replace('DESIGN_PROPS', '\n'.join(d)).replace('SEEDED_TABLE', '\n'.join(rows))
open('DESIGN.md', 'w').write(s)
