#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = ('contract-based deductive verification: weakest-precondition style symbolic execution of the functions parsed from /repo on '
        'every run, one obligation per postcondition/invariant, discharged by z3 (cvc5 as second back end); a counterexample search '
        'on the real compiled code confirms each failed obligation')


def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, '_note': note, '_na': na})


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
checks = [{'property': p['id'], 'quick_cmd': f'python3-vt /verif/rvc/run.py {p["id"]} --tier quick',
           'thorough_cmd': f'python3-vt /verif/rvc/run.py {p["id"]} --tier thorough', 'technique': TECH, 'level': 'proof', 'level_note': p['_note']}
          for p in P if not p['_na']]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['_na']} for p in P if p['_na']],
     'notes': 'Every check parses /repo, generates and discharges its obligations, then runs the compiled code of /repo on a bounded '
              'set of inputs with an independent oracle. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(m['not_applicable']), 'not applicable')
