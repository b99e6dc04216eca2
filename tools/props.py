#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl, MANIFEST.json and the tables of DESIGN.md. Run from /verif after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = ('Bounded model checking: the code is compiled from /repo to LLVM IR on every run and executed symbolically; each assertion, memory access and '
        'undefined-behaviour check is decided by Z3 for all values within the bounds the evidence lists. Counterexamples are replayed natively before they are reported. ')
PYNOTE = ('Bounded model checking: the Python source in /repo is executed on solver-backed symbolic values; every branch and assertion is decided by Z3 for all values within the bounds '
          'the evidence lists. Counterexamples are replayed on plain Python before they are reported. ')
SHIM = 'Trusted: the executor, Z3, clang, and the abseil stand-ins in shim/ (DESIGN.md lists what they model). '


def p(id, title, statement, over, text, why, files, mech, technique, note='', na=None, py=False):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files.split(), 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    P.append((d, technique, (PYNOTE if py else NOTE + SHIM) + note, na))


exec(open(os.path.join(V, 'tools', 'prop_list.py')).read())
assert len({d['id'] for d, *_ in P}) == len(P)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the checks compile /repo as it is. `./check ID` runs one property (VERIF_TIER=quick|thorough); DESIGN.md describes the machinery.'}
for d, t, n, na in P:
    if na:
        m['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        m['checks'].append({'property': d['id'], 'quick_cmd': './check ' + d['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + d['id'],
                            'evidence_file': 'evidence/%s.json' % d['id'], 'technique': t, 'level': 'model_checking', 'level_note': n.strip()})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')


def table(name, rows):
    s = open(os.path.join(V, 'DESIGN.md')).read()
    a, b = '<!--%s-->' % name, '<!--/%s-->' % name
    i, j = s.index(a) + len(a), s.index(b)
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])


rows = []
for d, t, n, na in P:
    if not na:
        rows += ['### %s %s' % (d['id'], d['title']), '', d['statement'], '',
                 '* **Code**: ' + ', '.join('`%s`' % f for f in d['anchors']['files']), '* **Decided by**: ' + t, '* **Explored**: ' + d['quantifier']['text'],
                 '* **Against**: ' + ORACLE[d['id']], '* **Beyond tests**: ' + d['why_tests_cant'], '']
table('props', rows)
rows = ['| planted bug | property | needs |', '|---|---|---|']
S = os.path.join(V, 'seeded')
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs']))
table('seeds', rows)
table('na', ['* **%s %s** %s' % (d['id'], d['title'], na) for d, t, n, na in P if na] or ['None.'])
