#!/usr/bin/env python3
"""Regenerates DESIGN.md from dev/design.md, the rules, the findings and the planted bugs."""
import sys, os, json, glob
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'tool'))
import check
from qdb import rule as R
check.load_rules()
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {d['property']: d['reason'] for d in man['not_applicable']}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
kf = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl'))]
out = ['## 3. Findings\n\nGenuine defects found while building the checks. Each was shown on the real code before it was repaired.\n\n### Known, not repaired\n']
for k in kf:
    if k['status'] == 'known':
        out.append('* **%s** (`%s`): %s' % (k['property'], k['ident'], k['what']))
out.append('\n### Repaired (one `fix:` commit each)\n')
for k in kf:
    if k['status'] == 'fixed':
        out.append('* **%s** %s: %s' % (k['property'], k['commit'], k['what']))
known = '\n'.join(out)
out = ['## 4. The properties, one by one\n\nCosts: a run takes 1–5 s once the facts are extracted, up to two minutes if a widely included header changed.\n']
for d in props:
    i = d['id']
    out.append('### %s — %s\n' % (i, d['title']))
    if i not in R.RULES:
        out.append('Not applicable: %s\n' % na.get(i, ''))
        continue
    out.append('*Why tests cannot settle it*: %s *Quantified over*: %s.\n' % (d['why_tests_cant'], d['quantifier']['text']))
    for n, desc, fn in sorted(R.RULES[i], key=lambda x: 0):
        out.append('* `%s`: %s' % (n, desc if isinstance(desc, str) else fn))
    out.append('')
rules = '\n'.join(out)
out = ['## 5. Planted bugs\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'].replace('|', '/').replace('\n', ' '), j.get('caught_by', j['property'])))
seeds = '\n'.join(out) + '\n'
t = open(os.path.join(HERE, 'design.md')).read()
t = t.replace('@@KNOWN@@', known).replace('@@RULES@@', rules).replace('@@SEEDS@@', seeds)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
print(len(t), 'bytes')
