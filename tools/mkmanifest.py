#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py, harness/* and tools/na.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(d) + '\n' for d in props.OUT))
na = json.load(open(V + '/tools/na.json')) if os.path.exists(V + '/tools/na.json') else {}
def directives(p):
    d = {}
    for l in open(p):
        m = re.match(r'(?://|#)\s*@(\w+):\s*(.*?)\s*$', l)
        if m: d[m.group(1)] = (d.get(m.group(1), '') + ' ' + m.group(2)).strip()
        elif not l.startswith(('//', '#')): break
    return d
checks, notapp = [], []
for d in props.OUT:
    i = d['id']; f = [V + '/harness/%s.%s' % (i, e) for e in ('cpp', 'py') if os.path.exists(V + '/harness/%s.%s' % (i, e))]
    if not f or i in na:
        notapp.append(dict(property=i, reason=na.get(i, 'no check built yet'))); continue
    x = directives(f[0])
    tech = x.get('TECH', 'stateless model checking of the real code: exhaustive enumeration of operation histories and inputs within bounds, against a reference model')
    note = 'Exhaustive within the bounds; nothing is claimed beyond them. Bounds and assumptions: ' + x.get('ASSUME', 'see DESIGN.md').replace(';;', '; ') + '. Trusts g++/ASan/UBSan, the explorer, the reference model and the stand-in headers for the ecl_lite packages.'
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='none: no instrumentation was added to /repo; system calls are redirected at link time (--wrap) and memory accesses by compiler instrumentation',
                    enable='not needed', source_commits=[]),
         checks=checks, not_applicable=notapp,
         notes='See DESIGN.md. known_findings.txt lists the genuine defects found (known: recorded, fixed: repaired).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(notapp), 'not applicable')
