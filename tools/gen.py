#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (one place for both, so that they stay in step)"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from props import PROPS, NA
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'technique': p.get('technique', 'contract-based deductive verification: contracts and loop invariants on the real functions (LLVM IR regenerated from the current source), obligations discharged by SMT'),
                   'level': p.get('level', 'proof'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
