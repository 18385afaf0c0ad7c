"""Writes MANIFEST.json: every property with a specs/<id>.py is claimed, the others need a reason below."""
import json, os, sys, importlib, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = dict(l.split(' ', 1) for l in open(os.path.join(H, 'tools', 'not_applicable.txt')).read().strip().split('\n') if l)
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    f = os.path.join(H, 'specs', i + '.py')
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module('specs.' + i)
        checks.append(dict(property=i, quick_cmd=f'./check.py {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.py {i}', evidence_file=f'evidence/{i}.json',
                           technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the clang IR of /repo (irv + z3); concrete replay by a sanitizer driver'),
                           level=getattr(m, 'LEVEL', 'proof'), level_note=' '.join(m.NOTE.split())))
    else: na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes='No hooks in /repo: contracts are attached from /verif to the functions extracted mechanically from /repo on every run.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
