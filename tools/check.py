#!/usr/bin/env python3
"""Run the solver-based checks of one property.

  tools/check.py ID [--tier quick|thorough] [--only HARNESS] [-v]
  tools/check.py --replay FILE

The sources of /repo are compiled to LLVM bitcode, every harness of the
property is executed symbolically by build/symx and each counterexample is
replayed against the real library, built natively with sanitizers.  Only a
counterexample that reproduces is reported.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, glob, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SUSA_REPO', '/repo')
SYMX = os.path.join(V, 'build', 'symx')
CLANG = '/usr/lib/llvm-18/bin/clang++'
NPROC = max(2, min(8, os.cpu_count() or 8))
SRCS = ['rng', 'mt', 'sets', 'base', 'ccode', 'matrix', 'modulation', 'rrcosine', 'svd', 'utility']

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'

def ensure_symx():
    if os.path.exists(SYMX):
        newest = max(os.path.getmtime(f) for f in glob.glob(V + '/sym/*'))
        if os.path.getmtime(SYMX) >= newest: return
    r, o, e = sh(['make', '-C', V + '/sym', '-j8'])
    if r: print(o, e, file=sys.stderr); sys.exit(2)

def parse(prop, tier):
    """harness annotations: // @h NAME key=value ... """
    out, bounds = [], []
    fn = f'{V}/harness/{prop}.cpp'
    for l in open(fn):
        m = re.match(r'//\s*@bounds\s+(.*)', l)
        if m: bounds.append(m.group(1).strip())
        m = re.match(r'//\s*@h\s+(\S+)\s*(.*)', l)
        if not m: continue
        d = dict(name=m.group(1), mode='ieee', merge='0', shards='1', tier='both', config='default', timeout='', qtimeout='4000', feas='3000', reach='', maxsteps='')
        for kv in m.group(2).split():
            k, v = kv.split('=', 1); d[k] = v
        if d['tier'] != 'both' and d['tier'] != tier: continue
        if tier == 'thorough':
            for k in list(d):
                if k.startswith('t_'): d[k[2:]] = d[k]
        if not d['timeout']: d['timeout'] = '60' if tier == 'quick' else '400'
        out.append(d)
    return fn, out, bounds

class Builder:
    def __init__(self, prop, tier, fn, tmp):
        self.prop, self.tier, self.fn, self.tmp = prop, tier, fn, tmp
        self.native = {}; self.lock = threading.Lock()
    def defs(self, config):
        d = ['-DTHOROUGH'] if self.tier == 'thorough' else []
        if config == 'nassert': d += ['-DSUSA_NASSERT']
        if config == 'nolog': d += ['-DSUSA_NDEBUG']
        return d
    def srcs(self):
        # the library's translation units, as listed by its build file
        try:
            t = open(REPO + '/CMakeLists.txt').read(); m = re.search(r'SRC_FILES\s+([^)]*)\)', t)
            l = [x for x in m.group(1).split() if x.endswith('.cpp')]
            if l: return [os.path.join(REPO, x) for x in l]
        except Exception: pass
        return [f'{REPO}/src/{s}.cpp' for s in SRCS]
    def bitcode_jobs(self, config):
        base = [CLANG, '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', '-w', '-I' + V + '/shim', '-I' + REPO + '/inc', '-I' + V + '/harness'] + self.defs(config)
        jobs = []
        for s in self.srcs() + [self.fn]:
            o = f'{self.tmp}/{config}-{os.path.basename(s)}.bc'; jobs.append((base + [s, '-o', o], o))
        return jobs
    def link(self, config, objs):
        o = f'{self.tmp}/{config}.bc'
        r, so, e = sh([SYMX, 'prep', o] + objs, timeout=300)
        if r: raise RuntimeError('prep failed: ' + so + e)
        return o
    def native_exe(self, h):
        k = (h.get('sched', '0'), h['config'])
        with self.lock:
            if k in self.native: return self.native[k]
            res = []
            variants = [('g++', ['-O1', '-ftrivial-auto-var-init=pattern']), ('g++', ['-O0', '-ftrivial-auto-var-init=zero'])]
            flags = ['-std=c++17', '-g', '-w', '-fsanitize=address,bounds,null,integer-divide-by-zero', '-fno-sanitize-recover=all', '-I' + REPO + '/inc', '-I' + V + '/harness'] + self.defs(h['config'])
            wraps = ['-Wl,--wrap=' + x for x in ['malloc', 'calloc', 'realloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t']]
            if h.get('sched') == '1':
                variants = [(CLANG, ['-O1', '-fsanitize=thread'])]
            def one(iv):
                i, (cc, fl) = iv
                d = f'{self.tmp}/n{i}-{k[0]}-{k[1]}'; os.makedirs(d, exist_ok=True); objs = []; ps = []
                if h.get('sched') == '1':
                    inst = [cc] + fl + ['-std=c++17', '-g', '-w', '-I' + REPO + '/inc', '-I' + V + '/harness', '-DSUSA_NDEBUG'] + self.defs(h['config'])
                    plain = [CLANG, '-O1', '-std=c++17', '-g', '-w', '-DSYM_SCHED']
                    for s in self.srcs() + [self.fn]:
                        o = f'{d}/{os.path.basename(s)}.o'; objs.append(o); ps.append(subprocess.Popen(inst + ['-c', s, '-o', o], stderr=subprocess.PIPE))
                    o = f'{d}/sched.o'; objs.append(o); ps.append(subprocess.Popen(plain + ['-c', V + '/replay/sched.cpp', '-o', o], stderr=subprocess.PIPE))
                    for p in ps:
                        _, er = p.communicate()
                        if p.returncode: raise RuntimeError('native build failed: ' + er.decode(errors='replace')[-2000:])
                    exe = f'{d}/exe'; r, so, er = sh([CLANG, '-rdynamic', '-o', exe] + objs + ['-lpthread', '-ldl'])
                    if r: raise RuntimeError('native link failed: ' + er[-2000:])
                    return exe
                for s in self.srcs() + [self.fn, V + '/replay/native.cpp']:
                    o = f'{d}/{os.path.basename(s)}.o'; objs.append(o)
                    ps.append(subprocess.Popen([cc] + fl + flags + ['-c', s, '-o', o], stderr=subprocess.PIPE))
                for p in ps:
                    _, er = p.communicate()
                    if p.returncode: raise RuntimeError('native build failed: ' + er.decode(errors='replace')[-2000:])
                exe = f'{d}/exe'; r, so, er = sh(['g++', '-rdynamic', '-fsanitize=address,undefined', '-o', exe] + objs + wraps + ['-lpthread', '-ldl'])
                if r: raise RuntimeError('native link failed: ' + er[-2000:])
                return exe
            with ThreadPoolExecutor(2) as ex: res = list(ex.map(one, enumerate(variants)))
            self.native[k] = res
            return res

def run_native(exes, infile, entry, sched=False, once=False):
    """returns (reproduced, text)"""
    fills = ['190', '0', '255', '127', '1']
    last = ''
    for e in exes:
        for f in fills:
            env = dict(os.environ, ASAN_OPTIONS=f'max_malloc_fill_size=1000000000:malloc_fill_byte={f}:detect_leaks=0:exitcode=44:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='exitcode=46:halt_on_error=1')
            r, o, er = sh([e, infile, entry], timeout=20 if not sched else 120, env=env)
            line = [l for l in er.splitlines() if 'SYM-REPLAY' in l or 'ERROR:' in l or 'runtime error' in l]
            last = f'exit {r}: ' + ' | '.join(line[:3])
            if r not in (0, 77): return True, ('timeout: does not terminate' if r == 124 else last)
            if sched or once: break
        if once: break
    return False, last

def load_known(prop):
    out = []
    fn = V + '/known_findings.jsonl'
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'open' and d.get('property') == prop: out.append(d)
    return out

def known_match(known, h, v):
    for k in known:
        if k.get('harness') and k['harness'] != h['name']: continue
        if not re.search(k.get('match', '.'), v['msg']): continue
        inp = dict(v['inputs'])
        if all(inp.get(a) == str(b) for a, b in k.get('inputs', {}).items()): return k
    return None

def replay_file(fn):
    meta = {}
    for l in open(fn):
        m = re.match(r'#\s*(\w+):\s*(.*)', l)
        if m: meta[m.group(1)] = m.group(2).strip()
    tmp = tempfile.mkdtemp(prefix='replay.', dir=V + '/build')
    try:
        b = Builder(meta['property'], meta['tier'], f"{V}/harness/{meta['property']}.cpp", tmp)
        exes = b.native_exe(dict(name=meta['harness'], config=meta['config'], sched=meta.get('sched', '0')))
        ok, txt = run_native(exes, fn, meta['harness'], meta.get('sched') == '1'); print(('reproduced: ' if ok else 'not reproduced: ') + txt)
        return 1 if ok else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': ensure_symx(); sys.exit(replay_file(a[1]))
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False; nonative = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1].split(','); i += 1
        elif a[i] == '-v': verbose = True
        elif a[i] == '--no-native': nonative = True
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); budget = 840.0 if tier == 'quick' else 6 * 3600.0
    os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    ensure_symx()
    fn, hs, bounds = parse(prop, tier)
    if only: hs = [h for h in hs if h['name'] in only]
    tmp = tempfile.mkdtemp(prefix=f'run-{prop}.', dir=V + '/build')
    try: rc = run(prop, tier, seed, fn, hs, bounds, tmp, t0, budget, verbose, nonative, bool(only))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, fn, hs, bounds, tmp, t0, budget, verbose, nonative, partial):
    B = Builder(prop, tier, fn, tmp)
    configs = sorted({h['config'] for h in hs}); mods = {}
    with ThreadPoolExecutor(NPROC) as ex:
        fut = {}
        for c in configs:
            for cmd, o in B.bitcode_jobs(c): fut[ex.submit(sh, cmd, 300)] = (c, o)
        objs = {c: [] for c in configs}
        for f in as_completed(fut):
            r, so, e = f.result(); c, o = fut[f]
            if r: print('BUILD-ERROR', o, e[-3000:]); return 2
        for c in configs: objs[c] = [o for _, o in B.bitcode_jobs(c)]
        for c, m in zip(configs, ex.map(lambda c: B.link(c, objs[c]), configs)): mods[c] = m
    tb = time.time() - t0
    jobs = []
    for h in hs:
        n = int(h['shards'])
        for s in range(n): jobs.append((h, s, n))
    def one(j):
        h, s, n = j; out = f'{tmp}/{h["name"]}.{s}.json'
        left = budget - 60 - (time.time() - t0)
        if left < 5: return h, s, None, 'no time left', 0
        to = min(float(h['timeout']), left)
        cmd = [SYMX, mods[h['config']], '--entry', h['name'], '--mode', h['mode'], '--timeout', str(to), '--qtimeout', h['qtimeout'], '--feas', h['feas'], '--shard', str(s), str(n), '--seed', str(seed), '--out', out]
        if h['merge'] == '1': cmd.append('--merge')
        if h.get('sweep') == '1': cmd.append('--sweep')
        if h['mode'] == 'real' and h.get('div') != 'assume': cmd.append('--divcheck')
        if h['mode'] == 'real' and h.get('f32') != 'exact': cmd.append('--f32')
        if h['maxsteps']: cmd += ['--maxsteps', h['maxsteps']]
        t = time.time(); r, so, e = sh(cmd, timeout=to + 45)
        try: res = json.load(open(out))
        except Exception: res = None
        if verbose and e.strip(): print(h['name'], s, e[-1500:])
        return h, s, res, f'exit {r} {e[-300:]}' if res is None else '', time.time() - t
    results = {h['name']: [] for h in hs}
    order = sorted(range(len(jobs)), key=lambda k: -float(jobs[k][0]['timeout']))
    with ThreadPoolExecutor(NPROC) as ex:
        for h, s, res, err, w in ex.map(one, [jobs[k] for k in order]): results[h['name']].append((s, res, err, w))
    known = load_known(prop); status = 0; viol_out, known_out, spurious = [], [], []
    tot = dict(paths=0, asserts=0, queries=0, solver_s=0.0, steps=0, inconclusive=0, unsupported=0, by_normal_form=0, by_solver=0, symx_s=0.0)
    allw = []; funcs = set(); hrep = []; notes = []; kseen = set()
    os.makedirs(V + '/build/replay', exist_ok=True)
    for h in hs:
        rs = sorted(results[h['name']], key=lambda x: x[0]); hr = dict(harness=h['name'], mode=h['mode'], config=h['config'], shards=int(h['shards'])); reached = {}
        agg = dict(paths=0, asserts=0, queries=0, solver_s=0.0, inconclusive=0, unsupported=0, incomplete=0); msgs = set(); viols = {}
        wits = []
        for s, res, err, w in rs:
            if res is None: agg['incomplete'] += 1; msgs.add('symbolic execution did not answer: ' + err); continue
            agg['paths'] += res['paths']; agg['asserts'] += res['asserts']; agg['queries'] += res['queries']; agg['solver_s'] += res['solver_s']; agg['inconclusive'] += res['inconclusive']; agg['unsupported'] += res['unsupported']
            tot['steps'] += res['steps']; tot['by_normal_form'] += res['asserts_by_normal_form']; tot['by_solver'] += res['asserts_by_solver']; tot['symx_s'] += res['wall_s']
            if res['incomplete'] or res['fatal']: agg['incomplete'] += 1; msgs.add(res['fatal'] or ('incomplete: ' + res.get('incomplete_why', '')))
            for m in res['inconclusive_msgs'] + res['unsupported_msgs']: msgs.add(m)
            for m in res['cut_msgs']: msgs.add('assumed: ' + m)
            funcs.update(res['functions']); wits += res['witnesses']
            for k, v in res['reached'].items(): reached[k] = reached.get(k, 0) + v
            for v in res['violations']: viols.setdefault((v['kind'], v['msg']), []).append(v)
        need = [x for x in h['reach'].split(',') if x]; missing = [x for x in need if x not in reached]
        hr.update(agg); hr['solver_s'] = round(agg['solver_s'], 3); hr['reached'] = reached; hr['notes'] = sorted(msgs)[:12]; hr['wall_s'] = round(sum(x[3] for x in rs), 2)
        if missing and not viols: notes.append(f'{h["name"]}: witness not reached: {",".join(missing)}')
        if agg['incomplete'] or agg['inconclusive'] or agg['unsupported']: notes.append(f'{h["name"]}: not fully decided ({agg["incomplete"]} incomplete shards, {agg["inconclusive"]} inconclusive queries, {agg["unsupported"]} unsupported) ' + '; '.join(sorted(m for m in msgs if not m.startswith('assumed'))[:4]))
        for k in ('paths', 'asserts', 'queries', 'solver_s', 'inconclusive', 'unsupported'): tot[k] += agg[k]
        if wits: allw.append((h, wits))
        n = 0
        for (kind, msg), vs in sorted(viols.items()):
            cands = vs[:3] if not known else vs[:12]
            for v in cands:
                kn = known_match(known, h, v)
                if kn and kn['id'] in kseen: continue
                if n >= 10 or time.time() - t0 > budget: break
                hid = hashlib.sha1((h['name'] + kind + msg + json.dumps(v['inputs'])).encode()).hexdigest()[:10]
                rf = f'{V}/build/replay/{prop}-{h["name"]}-{hid}.txt'
                with open(rf, 'w') as f:
                    f.write(f'# property: {prop}\n# harness: {h["name"]}\n# config: {h["config"]}\n# tier: {tier}\n# sched: {h.get("sched", "0")}\n# kind: {kind}\n# message: {msg}\n# where: {v["where"]}\n# run: {V}/tools/check.py --replay {rf}\n')
                    for a, b in v['inputs']: f.write(f'{a}\t{b}\n')
                if nonative: print('CANDIDATE', kind, msg, v['where'], v['inputs'][:40]); n += 1; break
                try: ok, txt = run_native(B.native_exe(h), rf, h['name'], h.get('sched') == '1')
                except Exception as e: ok, txt = False, 'replay could not be built: ' + str(e)
                n += 1
                if ok and kn: kseen.add(kn['id']); known_out.append(kn); print(f'KNOWN-FINDING: property={prop} {kn["what"]}'); continue
                if ok:
                    print(f'VIOLATION property={prop} replay={rf}'); print(f'  {h["name"]}: {kind}: {msg} [{v["where"]}]; replay: {txt}'); status = 1
                    viol_out.append(dict(harness=h['name'], kind=kind, message=msg, replay=rf, confirmed=txt, inputs=v['inputs'][:60])); break
                spurious.append(dict(harness=h['name'], kind=kind, message=msg, where=v['where'], replay=rf, result=txt)); print(f'note: {h["name"]}: {kind}: {msg} [{v["where"]}] did not reproduce natively ({txt})')
        hr['violations'] = len(viols); hrep.append(hr)
        if verbose: print(json.dumps(hr, indent=1))
    samples = [dict(harness=h['name'], label=w['msg'], inputs=w['inputs'][:24]) for h, ws in allw for w in ws[:1]][:12]
    nval = 0
    if not nonative:
        # cross-validation: inputs on which the symbolic run reached the end are run through the real code, built natively
        todo = [(h, w) for h, ws in allw for w in ws[:(2 if tier == 'quick' else 6)]]
        def val(iw):
            i, (h, w) = iw
            if h.get('sched') == '1' or time.time() - t0 > budget: return None
            wf = f'{tmp}/wit{i}.txt'; open(wf, 'w').write(''.join(f'{a}\t{b}\n' for a, b in w['inputs']))
            try: return run_native(B.native_exe(h)[:1], wf, h['name'], False, True)
            except Exception as e: return (True, 'could not be built: ' + str(e)[-200:])
        if todo:
            for c in {h['config']: h for h, _ in todo if h.get('sched') != '1'}.values():
                try: B.native_exe(c)
                except Exception: pass
        with ThreadPoolExecutor(NPROC) as ex:
            for (h, w), r in zip(todo, ex.map(val, enumerate(todo))):
                if r is None: continue
                if not r[0] and 'exit 0' in r[1]: nval += 1
                elif r[0]: notes.append(f'{h["name"]}: a symbolically passing input behaved differently natively: {r[1]} {w["inputs"][:12]}')
    wall = time.time() - t0
    for n in notes: print('NOTE', n)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), result='violation' if status else 'pass',
              coverage=dict(states=max(1, tot['steps']), transitions=max(1, tot['paths']), traces_validated_against_impl=nval + len(viol_out) + len(known_out), samples=samples,
                            explanation='Symbolic execution of the LLVM IR of /repo (states = IR instructions executed symbolically, transitions = paths completed; nothing is sampled); each assertion is decided by normal form or by Z3/cvc5 over all values within the bounds.',
                            functions_encoded=sorted(funcs), bounds=bounds, harnesses=hrep, paths=tot['paths'], assertions=tot['asserts'], assertions_by_normal_form=tot['by_normal_form'], assertions_by_solver=tot['by_solver'],
                            queries_discharged=tot['queries'], solver_s=round(tot['solver_s'], 3), symbolic_execution_s=round(tot['symx_s'], 2), build_s=round(tb, 2), inconclusive=tot['inconclusive'], unsupported=tot['unsupported'], notes=notes, unconfirmed=spurious),
              violations=len(viol_out), violation_details=viol_out, known_findings=[k['id'] for k in known_out])
    if not partial: json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {"VIOLATED" if status else "held on everything explored"}; {len(hs)} harnesses, {tot["paths"]} paths, {tot["asserts"]} assertions ({tot["by_normal_form"]} by normal form, {tot["by_solver"]} by solver), {tot["queries"]} queries, solver {tot["solver_s"]:.1f}s, wall {wall:.1f}s')
    return status
if __name__ == '__main__': main()
