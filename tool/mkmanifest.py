#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the rules that exist."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
from qdb import rule as R
check.load_rules()
NA = {
    'N01': 'liveness over unbounded schedules and network timing; no static rule bounds when timers and messages align',
    'N02': 'a property of whole distributed histories; only its local ingredients (R01-R19, C14) can be decided from the source',
    'N03': 'needs a proof that every command is a deterministic function of log prefix and store, over all store contents and past snapshots; only the ingredients S01, S08 and C08 are decided',
    'N04': 'a statement about the quality of a random source at run time, not about the source text',
}
TECHS = {
    'U01': 'static analysis: whole-program lockset dataflow over the call graph (locks held at every access of a shared field, meet over callers); rules: ',
    'U02': 'static analysis: whole-program lock-order graph (locks held at every acquisition, transitively through calls, destructors and joins), cycle and re-acquisition detection; rules: ',
}
TODO = 'not decided yet: the rules for this property are still being written (see DESIGN.md)'
TECH = 'static analysis: path-sensitive symbolic dataflow over the resolved syntax trees (clang AST facts); rules: '
ids = [json.loads(l)['id'] for l in open(os.path.join(check.VERIF, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tool/extract.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in R.RULES:
        names = ', '.join(n for n, _, _ in R.RULES[i])
        m['checks'].append({'property': i, 'quick_cmd': 'python3 tool/check.py ' + i, 'thorough_cmd': 'python3 tool/check.py ' + i,
                            'technique': TECHS.get(i, TECH) + names, 'level': 'other',
                            'level_note': 'Every path of the analysed functions is enumerated (loops by one generic iteration with all modified state forgotten, helpers inlined) and each rule must be entailed by the path facts at its construct. Sound relative to the engine models of the standard library and RocksDB described in DESIGN.md; class invariants are assumed at entry where stated there.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, TODO)})
json.dump(m, open(os.path.join(check.VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
