#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, one entry per property (statement's oracle, harnesses, bounds, cost of the last
quick run, planted changes), tools/design_tail.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); o = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 5. Property by property', '',
 'For every property: what the harnesses specify is the statement in properties.jsonl; "modes" are those of section 1.3; the cost is that of one quick run on 8 idle cores; "caught" and "missed" are the planted changes in `seeded/` (their patch.diff and meta.json say what they do).', '']
R = json.load(open(V + '/tools/bugs/results.json')) if os.path.exists(V + '/tools/bugs/results.json') else {}
C = json.load(open(V + '/tools/bugs/cost.json')) if os.path.exists(V + '/tools/bugs/cost.json') else {}
for f in glob.glob(V + '/evidence/C*.json'):
    d = json.load(open(f)); c = d['coverage']
    if d.get('tier') == 'quick' and d.get('result') == 'pass' and not d.get('partial'): C[d['property']] = dict(wall=round(d['wall_s']), a=c['assertions'], n=c['assertions_by_normal_form'], q=c['queries_discharged'], p=c['paths'], f=len(c['functions_encoded']))
json.dump(C, open(V + '/tools/bugs/cost.json', 'w'), indent=0, sort_keys=True)
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']; t = open(f'{V}/harness/{i}.cpp').read(); b = ' '.join(re.findall(r'//\s*@bounds\s+(.*)', t)); n = ' '.join(re.findall(r'//\s*@assumes\s+(.*)', t)); hs = re.findall(r'//\s*@h\s+(\S+)(.*)', t)
    modes = sorted({(re.search(r'mode=(\w+)', x) or [0, 'ieee/bit-vector'])[1] for _, x in hs}); o += [f'### {i} — {d["title"]}', '', f'* Bounds: {b}.']
    if n: o += [f'* Assumptions: {n}.']
    o += [f'* {len(hs)} harnesses ({sum("tier=thorough" in x for _, x in hs)} thorough only), modes: {", ".join(modes)}.']
    if i in C: c = C[i]; o[-1] += f' Cost: {c["wall"]} s; {c["p"]} paths, {c["a"]} assertions ({c["n"]} by normal form), {c["q"]} queries, {c["f"]} functions encoded.'
    s = sorted(os.path.basename(x) for x in glob.glob(f'{V}/seeded/{i}-*')); ca = [x for x in s if R.get(x)]; mi = [x for x in s if not R.get(x)]
    if ca: o += ['* Planted, caught: ' + ', '.join(ca) + '.']
    if mi: o += ['* Planted, missed: ' + ', '.join(mi) + '.']
    o += ['']
if os.path.exists(V + '/tools/design_tail.md'): o += [open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
