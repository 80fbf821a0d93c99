#!/usr/bin/env python3
"""retestall.py [BUG...]: run the quick check of every seeded bug's property on a scratch copy of /repo with that bug, two at a
time, and record caught (true) or missed (false) in tools/bugs/results.json."""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); RF = V + '/tools/bugs/results.json'
def one(b):
    p = json.load(open(f'{V}/seeded/{b}/meta.json'))['property']; r = tempfile.mkdtemp(prefix='rt-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', r], check=True)
        if subprocess.run(['git', '-C', r, 'apply', f'{V}/seeded/{b}/patch.diff']).returncode: return b, None, 'does not apply'
        x = subprocess.run(['python3', V + '/tools/check.py', p], env=dict(os.environ, SUSA_REPO=r), capture_output=True, text=True, timeout=900)
        w = [l for l in x.stdout.splitlines() if 'quick:' in l]
        return b, x.returncode == 1 and f'VIOLATION property={p} ' in x.stdout, (w or ['?'])[-1][:160]
    except subprocess.TimeoutExpired: return b, False, 'timeout'
    finally: shutil.rmtree(r, ignore_errors=True)
bugs = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
res = json.load(open(RF)) if os.path.exists(RF) else {}
with cf.ThreadPoolExecutor(2) as ex:
    for b, ok, w in ex.map(one, bugs):
        print(b, {True: 'CAUGHT', False: 'MISSED', None: 'N/A'}[ok], w, flush=True); res[b] = bool(ok); res = {k: v for k, v in res.items() if os.path.isdir(f'{V}/seeded/{k}')}; json.dump(res, open(RF, 'w'), indent=0, sort_keys=True)
