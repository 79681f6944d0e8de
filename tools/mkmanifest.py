#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a driver is claimed."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)['id'] for x in open(os.path.join(here, 'properties.jsonl'))]
have = set()
for p in glob.glob(os.path.join(here, 'harness', 'd_*.py')):
    s = open(p).read()
    have |= set(re.findall(r"CHECKS\['(\w+)'\]", s))
    m = re.search(r"^CHECKS = \{([^}]*)\}", s, re.M)
    if m:
        have |= set(re.findall(r"'([A-Z]\d\d)'", m.group(1)))
notes = json.load(open(os.path.join(here, 'tools', 'notes.json')))
NA = json.load(open(os.path.join(here, 'tools', 'na.json')))
checks = []
for i in ids:
    if i in have:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'bin/check {i} --tier quick', thorough_cmd=f'bin/check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=n.get('technique', 'TLA+ model checked with TLC; TLC-generated scenarios replayed on the real code, recorded trace validated by TLC'),
                           level='model_checking',
                           level_note=n.get('note', 'Design exhaustively checked within the constants of the MC config; code checked on every scenario of that scope plus seeded random larger ones, each accepted or rejected by TLC. Trusts TLC, the recorder in harness/ and the Python/numpy runtime; says nothing about inputs outside the generated scope.')))
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in have]
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none (no hooks needed: public entry points expose the abstract state)', enable='nothing to enable', source_commits=[]),
         checks=checks, not_applicable=na, notes='See DESIGN.md. Checks compile /repo into its git-ignored _build through /opt/vp/aes/compile.sh.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
