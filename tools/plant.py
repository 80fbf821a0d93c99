#!/usr/bin/env python3
"""Plant one seeded bug: plant.py ID PROP FILE <<spec   (spec: python dict literal
   {'edits': [(file, old, new), ...], 'needs': str, 'breaks': str, 'demo': C++ source})
Builds the change in a scratch copy of /repo, runs the stable tests, checks the
demonstration on both trees and writes seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json}."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def plant(bid, prop, spec):
    root = run('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.strip()
    for fn, old, new in spec['edits']:
        s = open('/repo/' + fn).read()
        if s.count(old) != 1: return f'edit matches {s.count(old)} times in {fn}: {old[:60]!r}'
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp'); 
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True, ignore=shutil.ignore_patterns('build*'))
        for fn, old, new in spec['edits']:
            p = f'{tmp}/repo/{fn}'; s = open(p).read(); open(p, 'w').write(s.replace(old, new))
        diff = run('git', 'diff', cwd=tmp + '/repo').stdout
        # every removed line must stem from the original repository
        for fn in sorted({e[0] for e in spec['edits']}):
            bl = run('git', 'blame', '-s', '-l', 'HEAD', '--', fn, cwd='/repo').stdout.splitlines(); ln = 0; rem = 0
            for l in run('git', 'diff', '-U0', '--', fn, cwd=tmp + '/repo').stdout.splitlines():
                if l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if root[:30] not in bl[ln - 1]: return f'{fn}:{ln} is not an original line: {l}'
                    ln += 1; rem += 1
            if not rem: return fn + ': no original line changed'
        d = f'{V}/seeded/{bid}'; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.cpp', 'w').write(spec['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo: fails when the planted change is present\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w %s -Iinc -o "$T/demo" "$D/demo.cpp" src/*.cpp -lpthread || exit 3\ncd "$T" && timeout 60 ./demo >/dev/null 2>&1\n' % spec.get('flags', ''))
        json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        ok = run('bash', d + '/demo.sh', cwd='/repo').returncode; bad = run('bash', d + '/demo.sh', cwd=tmp + '/repo').returncode
        if ok != 0 or bad in (0, 3): return f'demo: unchanged {ok}, planted {bad}'
        # stable tests on the planted tree
        r = run('git', '-C', '/repo', 'apply', d + '/patch.diff')
        if r.returncode: return 'patch does not apply: ' + r.stdout
        try:
            b = run('bash', '/opt/vp/build.sh')
            if b.returncode: return 'build fails: ' + b.stdout[-1500:]
            run('bash', '/opt/vp/test.sh', tmp + '/o.json'); o = json.load(open(tmp + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json')); 
            if len(o['passed']) != 81 if isinstance(o['passed'], list) else o['passed'] != 81: return f'tests fail: {o["failed"]}'
            c = run('python3', V + '/tools/check.py', prop)
            vio = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            return f'OK planted={bad} check exit {c.returncode} ' + ('CAUGHT' if c.returncode == 1 and vio else 'MISSED') + '\n   ' + '\n   '.join(x[:220] for x in c.stdout.splitlines()[-3:])
        finally:
            run('git', '-C', '/repo', 'checkout', '--', '.'); run('bash', '/opt/vp/build.sh')
    finally: shutil.rmtree(tmp)
if __name__ == '__main__':
    specs = eval(open(sys.argv[1]).read()) # {id: (prop, spec)}
    for bid, (prop, spec) in specs.items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]: continue
        res = plant(bid, prop, spec)
        print(bid, prop, res, flush=True)
        if not res.startswith('OK'): shutil.rmtree(f'{V}/seeded/{bid}', ignore_errors=True)
