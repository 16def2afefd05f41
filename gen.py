#!/usr/bin/env python3-vt
"""Write properties.jsonl and MANIFEST.json from props.py"""
import json
from props import PROPS, NOT_APPLICABLE, TECH, TECHB
with open('properties.jsonl', 'w') as f:
    for pid, p in sorted(PROPS.items()):
        d = dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=p['state'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None))
        assert len(p['title']) <= 80, pid
        f.write(json.dumps(d) + '\n')
checks = []
for pid, p in sorted(PROPS.items()):
    if pid in NOT_APPLICABLE:
        continue
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s' % pid, thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=TECH if p.get('level', 'proof') == 'proof' else TECHB, level=p.get('level', 'proof'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
               notes='No hooks are needed in /repo: contracts live in /verif/contracts and are attached to the unmodified functions by name. known-findings.txt lists repaired defects.'),
          open('MANIFEST.json', 'w'), indent=1)


# the per property section of DESIGN.md, between its markers
MODFILE = {}
import importlib
def where(m, f):
    if m not in MODFILE:
        MODFILE[m] = importlib.import_module('contracts.' + m).env()
    return MODFILE[m].contracts[f].file
L = []
for pid, p in sorted(PROPS.items()):
    if pid in NOT_APPLICABLE:
        continue
    by = {}
    for m, f in p['funcs']:
        by.setdefault(where(m, f), [])
        if f not in by[where(m, f)]:
            by[where(m, f)].append(f)
    L.append('### %s %s (%s)' % (pid, p['title'], 'proof' if p.get('level', 'proof') == 'proof' else 'proof of the functions named, bounded for the rest' if by else 'bounded'))
    if by:
        L.append('- *Proved, unbounded:* ' + '; '.join('`%s`: %s' % (f, ', '.join(n)) for f, n in sorted(by.items())) + '.')
    b = p.get('always') or []
    w = [x for x in (p.get('witness') or []) if x not in b]
    if b:
        L.append('- *Bounded, on every run:* ' + ', '.join('`witness/%s.c`' % x for x in b) + '.')
    if w:
        L.append('- *Search for a failing input of a failed obligation:* ' + ', '.join('`witness/%s.c`' % x for x in w) + '.')
    L.append('- ' + p['note'])
    L.append('- *Beyond the tests:* ' + p['why'])
    L.append('')
d = open('DESIGN.md').read()
A, Z = '<!-- generated by gen.py -->\n', '<!-- end of generated part -->'
if A in d:
    d = d[:d.index(A) + len(A)] + '\n'.join(L) + d[d.index(Z):]
    open('DESIGN.md', 'w').write(d)
