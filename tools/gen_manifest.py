"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from contracts.registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = []
T = {'proof': 'contract-based deductive verification: contracts over the LLVM IR of the real code, obligations discharged by z3/cvc5', 'exploration': 'contracts on the real code, bounded search over inputs and schedules (stand-in for contracts the verifier cannot take yet)'}
N = {'proof': 'Every obligation of the contracts is discharged for all inputs within the stated preconditions. ', 'exploration': 'Bounded: the contracts are run on the real code under random inputs and schedules of a deterministic scheduler; nothing is proved. '}
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]; lv = p.get('level', 'proof')
    checks.append(dict(property=i, quick_cmd=f"python3-vt -m gv.check {i}", thorough_cmd=f"python3-vt -m gv.check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
        technique=p.get('technique', T[lv]), level=p.get('level', 'proof'),
        level_note=p.get('level_note') or (N[lv] + "Assumes: " + '; '.join(p.get('assumptions', [])) + ". Trusted: the gv generator, clang front end, solvers; counterexamples are replayed natively and proved contracts are cross-checked natively.")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
