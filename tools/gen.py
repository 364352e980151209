#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.json-like tables below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, level_note, na=None, observe=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      note=level_note, na=na, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in PROPS:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.py %s quick' % p['id'], thorough_cmd='./check.py %s thorough' % p['id'],
                       technique='contract-based deductive verification: executable pre/postconditions and loop invariants over the bodies extracted from /repo on every run, obligations discharged by z3, cvc5 and an algebraic normal form; counterexamples replayed on the compiled code',
                       level='proof', level_note=p['note']))
m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na,
         notes='Every check extracts the functions under contract from /repo with clang on every run (no committed copy of the code), generates the verification conditions with /verif/vc and discharges them with z3/cvc5/algebra. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# ---- DESIGN.md
ns = {}
exec(open(os.path.join(HERE, 'tools', 'design_text.py')).read(), ns)
T = lambda n: open(os.path.join(HERE, 'tools', n)).read()
o = [T('design_head.md'), '## Properties\n']
for p in PROPS:
    o.append('### %s %s\n' % (p['id'], p['title']))
    if p['na']:
        o.append('Not applicable: %s\n' % p['na'])
        continue
    o.append(ns['D'].get(p['id'], '') + '\n\nQuantified over: ' + p['qtext'] + '. Why tests cannot settle it: ' + p['why'] + '\n\nLevel: ' + p['note']
             + '\n\nAnchors: ' + ', '.join('`%s`' % f for f in p['files']) + '\n')
o.append('## Genuine defects found (repaired in /repo, or listed as findings)\n')
for l in T('../known_findings.txt').splitlines():
    if l and not l.startswith('#'):
        o.append('* ' + l)
o.append('\n## Planted changes and the check that catches each\nEach was written from the property text and the code, builds, passes the existing tests, and is caught by the quick check of its property (exit 1).\n\n| change | property | needs | breaks |\n|---|---|---|---|')
sd = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
o.append('\n' + T('design_tail.md'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(o))
