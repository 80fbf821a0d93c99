#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when harness/<ID>.cpp exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # id -> reason, for the properties this technique does not decide
fn = V + '/tools/not_applicable.json'
if os.path.exists(fn): NA = json.load(open(fn))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']; h = f'{V}/harness/{i}.cpp'
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(h): na.append(dict(property=i, reason='check not built yet')); continue
    t = open(h).read(); b = ' '.join(m.strip() for m in re.findall(r'//\s*@bounds\s+(.*)', t)); n = ' '.join(m.strip() for m in re.findall(r'//\s*@assumes\s+(.*)', t)); real = 'mode=real' in t
    note = f'Every path of the real code within the bounds is executed symbolically and every assertion decided by SMT; nothing is claimed outside them. Bounds: {b}.'
    if real: note += ' Floating point is treated as exact real arithmetic in the harnesses marked mode=real (rounding is outside the claim there).'
    if n: note += ' ' + n
    note += ' Trusted: clang -O0 lowering, the symbolic executor (cross-validated by native replays), Z3/cvc5.'
    checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick', thorough_cmd=f'python3 tools/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json', technique='symbolic execution of the LLVM IR of the real code, assertions decided by SMT (Z3/cvc5), counterexamples replayed natively', level='model_checking', level_note=note))
json.dump(dict(version=1, setup_cmd='make -C sym -j8', checks=checks, not_applicable=na, notes='No hooks are needed in /repo; the harnesses in harness/ use the public interface.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
