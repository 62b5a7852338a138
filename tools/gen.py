#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
from spec import P, NA
from fx.rules import REGISTRY
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks = []
for p in P:
    assert p['id'] in REGISTRY, p['id']
    checks.append({"property": p['id'], "quick_cmd": "python3 check.py %s --tier quick" % p['id'],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p['id'],
                   "technique": p['technique'], "level": "other", "level_note": p['level_note']})
for r in REGISTRY:
    assert r in [p['id'] for p in P], r
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": p['id'], "reason": p['reason']} for p in NA],
           "notes": "Static analysis of /repo/src (LLVM IR of every unit, rebuilt on every run) and of /repo/python/cython (Cython front end). "
                    "Each run analyses /repo's working tree; nothing of fisx is executed."},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'claimed,', len(NA), 'not applicable')

# ---- DESIGN.md
from notes import D
import glob
out = open(V + '/tools/DESIGN.in.md').read()
sec = []
for p in P:
    sec.append("### %s %s\n\n%s\n\n*Technique*: %s. *Scope and bounds*: %s *Why beyond tests*: %s\n" % (p['id'], p['title'], D[p['id']].strip(), p['technique'], p['level_note'], p['why_tests_cant']))
out = out.replace('@@PROPS@@', '\n'.join(sec))
out = out.replace('@@NA@@', '\n'.join('* **%s** %s: %s' % (p['id'], p['title'], p['reason']) for p in NA) or 'none yet')
kf = [L.strip() for L in open(V + '/known-findings.txt') if L.strip() and not L.startswith('#')]
out = out.replace('@@DEFECTS@@', '\n'.join('* ' + L for L in kf))
cj = V + '/tools/caught.json'
caught = json.load(open(cj)) if os.path.exists(cj) else {}
rows = ['| change | what it breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]; d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), ', '.join(caught.get(i, [])) or '?'))
out = out.replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(out)
