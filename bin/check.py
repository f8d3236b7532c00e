#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--strict] [--job NAME] [-v]
Runs every symbolic job of a property against /repo's current tree, replays each
counterexample against the natively compiled programs and writes evidence."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, types
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from concurrent.futures import ThreadPoolExecutor
V = build.V
sys.path.insert(0, V + '/harness')
import jobs as J

def harness_path(j): return V + '/harness/' + j['h'] + '.c'
def params(j): return j.get('p', {})

FOUND = {}
def run_job(tree, exe, j, out, workers, verbose, tl):
    src = harness_path(j); lib = j.get('lib', False)
    hb = tree.harness(src, ['-D' + d for d in j.get('defs', [])], lib)
    cmd = [exe, '--harness', hb, '--outdir', out, '--job', j['name'], '--workers', str(workers), '--samples', str(j.get('samples', 3)),
           '--max-viol', str(j.get('max_viol', 8)), '--instr-limit', str(j.get('instr', 400000000)), '--rlimit', str(j.get('rlimit', 400000000)), '--time', str(tl)]
    for t in j.get('tools', []):
        if t not in tree.tools: return {'job': j['name'], 'fatal': 'program %s is not in the tree' % t}
        cmd += ['--tool', '%s=%s/%s.x.bc' % (t, tree.bc, t)]
    for k, v in params(j).items(): cmd += ['--param', '%s=%d' % (k, v)]
    if verbose: cmd.append('-v')
    t0 = time.time()
    log = open('%s/%s.log' % (out, j['name']), 'w+', errors='replace')
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True); late = False
    while p.poll() is None: # a violation found anywhere bounds the time the rest may take
        time.sleep(0.05 if time.time() - t0 < 5 else 0.5)
        if time.time() - t0 > 5 and 'at' not in FOUND and glob.glob(out + '/*.cex0.json'): FOUND['at'] = time.time()
        if time.time() - t0 > tl + 60 or time.time() - FOUND.get('at', time.time()) > float(os.environ.get("VERIF_GRACE", 100)): late = True; break
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait(); log.seek(0); r = types.SimpleNamespace(stdout=log.read(), returncode=p.returncode); log.close()
    if late: return {'job': j['name'], 'fatal': 'engine stopped after %d s' % (time.time() - t0)}
    if verbose: sys.stderr.write(r.stdout)
    if os.environ.get('SYMIR_TRACEQ'): open('/tmp/o/qlog', 'w').write(r.stdout)
    js = out + '/' + j['name'] + '.json'
    if not os.path.exists(js): return {'job': j['name'], 'fatal': 'engine failed (%d): %s' % (r.returncode, r.stdout[-800:])}
    res = json.load(open(js)); res['log'] = r.stdout[-400:]
    return res

def values_file(path, vars):
    with open(path, 'w') as f:
        for k, v in vars.items(): f.write('%s %d\n' % (k.replace(' ', '_'), v))

def native_run(tree, j, vars, mode, scratch, valgrind=False, tl=150):
    h = tree.native_harness(harness_path(j), mode, ['-D' + d for d in j.get('defs', [])], j.get('lib', False))
    td = tree.native_tools(mode, j.get('tools', []))
    os.makedirs(scratch, exist_ok=True)
    vf = scratch + '.vals'; values_file(vf, vars)
    cmd = [h, vf, scratch, td] + ['%s=%d' % p for p in params(j).items()]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:abort_on_error=0', LC_ALL='C')
    if mode == 'asan': env['REPLAY_NOSIG'] = '1'
    pre = []
    if valgrind: env['REPLAY_VALGRIND'] = '1'
    if valgrind and j.get('lib'): pre = ['valgrind', '-q', '--error-exitcode=98', '--log-file=' + scratch + '.vg']
    try: r = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=tl)
    except subprocess.TimeoutExpired: return 124, 'timeout', cmd
    return r.returncode, r.stdout.decode('latin1'), cmd

def replay(tree, j, cex, scratch):
    """does the counterexample break the real, natively compiled code? returns (bool, text)"""
    k = cex['kind']; tries = []
    if k in ('assert', 'abort', 'divzero'): tries = [('plain', False), ('asan', False), ('plain', True)]
    elif k == 'hang': tries = [('plain', False)]
    elif k == 'uninit': tries = [('plain', True), ('asan', False)]
    else: tries = [('asan', False), ('plain', True)]
    txt = []
    for i, (mode, vg) in enumerate(tries):
        sc = '%s.%d' % (scratch, i)
        code, out, cmd = native_run(tree, j, cex['vars'], mode, sc, vg)
        shutil.rmtree(sc, ignore_errors=True)
        tail = [l for l in out.split('\n') if l.startswith(('ASSERT', 'CRASH', 'ASSUME', 'PASS', 'EXIT'))][-1:]
        txt.append('%s%s: exit %d %s' % (mode, ' valgrind' if vg else '', code, ' '.join(tail)))
        if code in (10, 12, 13, 99, 98) or code < 0 or (code == 124 and k == 'hang'): return True, '; '.join(txt)
    return False, '; '.join(txt)

def check_sample(tree, j, path, scratch):
    s = json.load(open(path))
    code, out, cmd = native_run(tree, j, s['vars'], 'plain', scratch)
    if code != 0: shutil.rmtree(scratch, ignore_errors=True); return False, 'native run of a passing path ended %d: %s' % (code, out[-300:])
    st = [l for l in out.split('\n') if l.startswith('STATUSES')]
    got = [int(x) for x in st[-1].split()[1:]] if st else []
    if got != s['statuses']: shutil.rmtree(scratch, ignore_errors=True); return False, 'exit statuses differ: %s, engine %s' % (got, s['statuses'])
    bad = None
    for n, hx in s['files'].items():
        if j.get('lib') and n in ('STDERR', 'STDOUT'): continue
        n = n.encode('latin1')
        p = scratch.encode() + b'/' + n
        if not os.path.exists(p): bad = 'file %r missing natively' % n; break
        if open(p, 'rb').read().hex() != hx: bad = 'file %r differs natively: engine %r native %r' % (n, bytes.fromhex(hx)[:300], open(p, 'rb').read()[:300]); break
    shutil.rmtree(scratch, ignore_errors=True)
    return bad is None, bad

def known_findings(prop):
    r = []
    p = V + '/known-findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('fixed:') or l.startswith('#'): continue
            d = json.loads(l)
            if d['property'] == prop: r.append(d)
    return r

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]; fl = [x for x in sys.argv[1:] if x.startswith('-')]
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    strict = '--strict' in fl; verbose = '-v' in fl
    onejob = [x[6:] for x in fl if x.startswith('--job=')]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = J.PROPS[prop]
    jobs = [dict(j) for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    for j in jobs:
        if tier == 'thorough' and 'tp' in j: j['p'] = dict(j.get('p', {}), **j['tp'])
    if onejob: jobs = [j for j in jobs if re.fullmatch(onejob[0], j['name'])]
    budget = 780 if tier == 'quick' else 3 * 3600
    exe = build.engine(); tree = build.Tree(); tree.bitcode()
    out = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=build.B)
    evd = os.environ.get('VERIF_EVIDENCE', V + '/evidence'); os.makedirs(evd, exist_ok=True)
    rdir = evd + '/replay-' + prop; shutil.rmtree(rdir, ignore_errors=True)
    res = {}; rc = 0; lines = []
    try:
        par = spec.get('par', 3)
        def left(): return max(5, budget - 60 - (time.time() - t0))
        with ThreadPoolExecutor(par) as ex:
            futs = [(j, ex.submit(lambda j=j: run_job(tree, exe, j, out, spec.get('workers', 8), verbose, min(j.get('tl', budget) if tier == 'quick' else j.get('ttl', budget), left())))) for j in jobs]
            for j, f in futs: res[j['name']] = f.result()
        viol = []; discarded = []; errors = []; incomplete = []; notes = []
        for j in jobs:
            r = res[j['name']]
            if 'fatal' in r:
                errors.append('%s: %s' % (j['name'], r['fatal']))
                for p in sorted(glob.glob('%s/%s.cex*.json' % (out, j['name']))):
                    try: viol.append((j, json.load(open(p, encoding='latin1'))))
                    except ValueError: pass
                continue
            if r['errors']: errors.append('%s: %s' % (j['name'], r['error']))
            elif not r['complete'] and not r['violations']: incomplete.append(j['name'])
            for lab in j.get('reach', [l for l in r['labels'] if not l.startswith('opt:')]):
                if not r['labels'].get(lab) and r['complete']: notes.append('%s: label %s not reached' % (j['name'], lab))
            for i in range(min(r['violations'], 12)):
                p = '%s/%s.cex%d.json' % (out, j['name'], i)
                if os.path.exists(p): viol.append((j, json.load(open(p, encoding='latin1'))))
        # native validation of sampled paths
        val_ok = 0; samples = []; mism = []
        def vs(t):
            j, p, k = t
            return check_sample(tree, j, p, out + '/s%d' % k)
        todo = []
        for j in jobs:
            for i in range(j.get('samples', 3)):
                p = '%s/%s.sample%d.json' % (out, j['name'], i)
                if os.path.exists(p): todo.append((j, p, len(todo)))
        if todo:
            ms = sorted(set(id(t[0]) for t in todo))
            for t in {id(t[0]): t for t in todo}.values(): tree.native_tools('plain', t[0].get('tools', [])); tree.native_harness(harness_path(t[0]), 'plain', ['-D' + d for d in t[0].get('defs', [])], t[0].get('lib', False))
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(vs, todo))
            for (j, p, k), (ok, why) in zip(todo, rs):
                if ok: val_ok += 1
                else: mism.append('%s: %s' % (j['name'], why))
                if len(samples) < 6 and not any(x['job'] == j['name'] for x in samples): samples.append({'job': j['name'], 'vars': json.load(open(p))['vars']})
        kf = known_findings(prop); kseen = set(); nviol = 0; reported = []
        for n, (j, cex) in enumerate(viol):
            key = (j['name'], cex['kind'], cex['message'])
            if reported.count(key) >= 2: continue
            ok, txt = replay(tree, j, cex, '%s/r%d' % (out, n))
            if not ok: discarded.append({'job': j['name'], 'cex': cex, 'replay': txt}); continue
            m = [i for i, k in enumerate(kf) if re.search(k['match'], '%s|%s|%s|%s' % (j['name'], cex['kind'], cex['message'], cex['where']))]
            if m: kseen.add(m[0]); continue
            reported.append(key)
            os.makedirs(rdir, exist_ok=True)
            rp = '%s/%s-%d.json' % (rdir, j['name'], n)
            json.dump({'property': prop, 'job': j['name'], 'harness': j['h'], 'tools': j.get('tools', []), 'params': params(j), 'defs': j.get('defs', []), 'counterexample': cex, 'native_replay': txt,
                       'rerun': 'python3 /verif/bin/replay.py ' + rp}, open(rp, 'w'), indent=1)
            nviol += 1; rc = 1
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
            lines.append('  job %s: %s: %s at %s [%s]' % (j['name'], cex['kind'], cex['message'], cex['where'][:200], txt))
        for i in sorted(kseen): lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf[i]['what']))
        tot = lambda k: sum(r.get(k, 0) for r in res.values() if 'fatal' not in r)
        fns = sorted({(f, os.path.basename(x)) for r in res.values() if 'fatal' not in r for f, x in r['functions'] if x.startswith(build.SRC) or '/src/' in x})
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
              'coverage': {'states': tot('paths') + tot('infeasible'), 'transitions': tot('instrs'), 'traces_validated_against_impl': val_ok, 'samples': samples,
                           'paths_completed': tot('paths'), 'forks': tot('forks'), 'assertions_evaluated': tot('asserts'), 'assertion_queries': tot('assert_queries'),
                           'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'solver_s': round(tot('solver_s'), 2), 'concretizations': tot('concretizations'),
                           'exhaustive': not errors and not incomplete and not viol,
                           'functions_encoded': ['%s (%s)' % f for f in fns], 'bounds': spec.get('bounds', ''), 'outside': spec.get('outside', ''),
                           'jobs': [{'job': j['name'], 'harness': j['h'], 'params': params(j), 'bounds': j.get('b', ''), **({k: res[j['name']].get(k) for k in ('complete', 'paths', 'infeasible', 'queries', 'unsat', 'solver_s', 'asserts', 'assert_queries', 'labels', 'wall_s', 'fatal', 'error') if k in res[j['name']]})} for j in jobs],
                           'incomplete_jobs': incomplete, 'engine_errors': errors, 'unreproduced_counterexamples': discarded, 'trace_mismatches': mism, 'notes': notes},
              'assumptions': J.ASSUMPTIONS + spec.get('assumptions', [])}
        json.dump(ev, open('%s/%s.json' % (evd, prop), 'w'), indent=1)
        for l in lines: print(l)
        print('%s %s: %d paths, %d infeasible, %d queries (%d unsat), solver %.1fs, %d traces validated, %d violations, %.1fs' % (prop, tier, tot('paths'), tot('infeasible'), tot('queries'), tot('unsat'), tot('solver_s'), val_ok, nviol, time.time() - t0))
        for k, v in (('engine error', errors), ('trace mismatch', mism), ('note', notes), ('incomplete', incomplete)):
            for x in v: print('  %s: %s' % (k, x))
        for d in discarded: print('  unreproduced: %s %s: %s at %s [%s] %s' % (d['job'], d['cex']['kind'], d['cex']['message'], d['cex']['where'], d['replay'], json.dumps(d['cex']['vars'])[:600]))
        if rc == 0:
            done = tot('paths')
            if errors and not done: rc = 2
            if strict and (errors or mism or notes or incomplete or discarded): rc = 3
    finally:
        if '--keep' not in fl: shutil.rmtree(out, ignore_errors=True)
        else: print('kept', out)
    return rc

if __name__ == '__main__':
    try: rc = main()
    except build.BuildError as e: print('build error:', e); rc = 2
    except Exception: traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
