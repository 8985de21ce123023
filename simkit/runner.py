"""Batches of runs: workers, evidence, reporting."""
import collections
import gc
import importlib
import json
import os
import resource
import subprocess
import sys
import time

from . import sim

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = 8          # hash-seed groups: run i uses PYTHONHASHSEED 1 + i % 8
KNOWN = os.path.join(ROOT, 'known-findings.json')


def scenario_for(prop):
    mod = importlib.import_module('scenarios.' + prop.lower())
    return mod.SCENARIO


def environment(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache', TZ='UTC',
               LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONWARNINGS='ignore')
    for v in ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY',
              'ALL_PROXY', 'all_proxy', 'NO_PROXY', 'no_proxy'):
        env.pop(v, None)
    return env


def worker_main(argv):
    """worker PROP SEED INDEX NWORKERS COUNT SECONDS OUT"""
    prop, seed, index, nworkers, count, seconds, out = argv
    index, nworkers, count = int(index), int(nworkers), int(count)
    seconds = float(seconds)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sim.prepare()
    sc = scenario_for(prop)
    gc.collect()
    gc.freeze()
    gc.disable()
    start = time.monotonic()
    agg = {'runs': 0, 'steps': 0, 'switches': 0, 'sim_seconds': 0.0,
           'fired': collections.Counter(), 'probes': collections.Counter(),
           'sigs': set(), 'violations': [], 'harness': [], 'repeats': 0,
           'mismatches': [], 'findings': collections.Counter(),
           'with_faults': 0, 'with_preempts': 0, 'samples': [],
           'executions': 0, 'capped': False, 'finding_detail': {}}
    i = index
    classes = set()
    while i < count:
        if time.monotonic() - start > seconds:
            agg['capped'] = True
            break
        plan, res = sim.make_plan(sc, seed, i)
        plan['run'] = i
        plan['seed'] = seed
        plan['hashseed'] = os.environ['PYTHONHASHSEED']
        if res is None:
            agg['executions'] += plan.get('profiled', False)
            res = sim.fork_execute(sc, plan)
        agg['executions'] += 1
        if res.harness:
            # classified apart from violations; look once more
            again = sim.fork_execute(sc, plan)
            agg['harness'].append([i, res.harness])
            res = again
            if again.harness:
                if len(agg['harness']) > 5:
                    break
                i += nworkers
                continue
        agg['runs'] += 1
        agg['steps'] += res.steps
        agg['switches'] += res.switches
        agg['sim_seconds'] += res.sim_seconds
        agg['fired'].update(res.fired)
        agg['probes'].update(res.probes)
        agg['sigs'].add(res.sig)
        agg['with_faults'] += bool(res.fired)
        agg['with_preempts'] += bool(res.switches)
        for f in res.findings:
            agg['findings'][f[0]] += 1
            agg['finding_detail'].setdefault(f[0], f[1])
        if agg['runs'] % 40 == 1:
            agg['repeats'] += 1
            r2 = sim.fork_execute(sc, plan)
            if r2.digest != res.digest and not r2.harness:
                agg['mismatches'].append(i)
        if len(agg['samples']) < 1 and (res.fired or res.switches):
            agg['samples'].append({k: plan[k] for k in
                                   ('run', 'cfg', 'actors', 'faults',
                                    'preempt', 'net') if k in plan})
        if res.violation:
            if res.violation[0] not in classes and len(classes) < 3:
                classes.add(res.violation[0])
                agg['violations'].append([plan, list(res.violation)])
                # one class is enough to fail; give others a little time
                seconds = min(seconds, time.monotonic() - start + 3)
        i += nworkers
    agg['seconds'] = time.monotonic() - start
    agg['sigs'] = sorted(agg['sigs'])
    # minimise here: this process has the right hash seed
    done = []
    for plan, v in agg['violations']:
        small, tries = sim.shrink(sc, plan, v[0],
                                  deadline=time.monotonic() + 45)
        res = sim.fork_execute(sc, small, full_log=True)
        if res.violation is None:
            small = plan
            res = sim.fork_execute(sc, small, full_log=True)
        done.append({'plan': small, 'violation': v,
                     'digest': res.digest, 'shrink_tries': tries,
                     'log': res.log_tail[-150:],
                     'final': list(res.violation or ()), 'original': plan})
    agg['violations'] = done
    for key in ('fired', 'probes', 'findings'):
        agg[key] = dict(agg[key])
    with open(out, 'w') as f:
        json.dump(agg, f)
    return 0


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['id']: e for e in data.get('findings', ())
            if prop in e.get('properties', ())}


def run_check(prop, tier, seed, runs=None, seconds=None, workers=8):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    sc = scenario_for(prop)
    m = {'rule': sc.rule, 'real': list(sc.real), 'stub': list(sc.stub),
         'assumptions': list(sc.assumptions)}
    count = runs or (sc.quick_runs if tier == 'quick' else
                     sc.thorough_runs or 40 * sc.quick_runs)
    cap = seconds or (420 if tier == 'quick' else 5400)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    print('%s %s: seed %s, %d runs on %d workers' % (prop, tier, seed, count,
                                                     workers), flush=True)
    import tempfile
    with tempfile.TemporaryDirectory(prefix='simcheck') as tmp:
        procs = []
        for w in range(workers):
            out = os.path.join(tmp, 'w%d.json' % w)
            err = open(os.path.join(tmp, 'w%d.err' % w), 'w+')
            p = subprocess.Popen(
                [sys.executable, '-X', 'faulthandler', '-m', 'simkit.worker',
                 prop, str(seed), str(w), str(workers), str(count), str(cap),
                 out], cwd=ROOT, env=environment(1 + w % GROUPS), stderr=err,
                stdout=subprocess.DEVNULL)
            procs.append((p, out, err))
        aggs = []
        broken = []
        limit = time.monotonic() + cap + 240
        for p, out, err in procs:
            try:
                p.wait(max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                broken.append('worker timed out')
            err.seek(0)
            text = err.read()
            err.close()
            if p.returncode == 0 and os.path.exists(out):
                aggs.append(json.load(open(out)))
            else:
                broken.append('worker failed (%s)\n%s'
                              % (p.returncode, text[-3000:]))
    wall = time.time() - t0
    tot = collections.Counter()
    fired = collections.Counter()
    probes = collections.Counter()
    findings = collections.Counter()
    detail = {}
    sigs = set()
    samples, mismatches, harness, violations = [], [], [], []
    for a in aggs:
        for key in ('runs', 'steps', 'switches', 'sim_seconds', 'repeats',
                    'with_faults', 'with_preempts', 'executions', 'seconds'):
            tot[key] += a[key]
        fired.update(a['fired'])
        probes.update(a['probes'])
        findings.update(a['findings'])
        for key, v in a['finding_detail'].items():
            detail.setdefault(key, v)
        sigs.update(a['sigs'])
        samples += a['samples']
        mismatches += a['mismatches']
        harness += a['harness']
        violations += a['violations']
    capped = any(a['capped'] for a in aggs)
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': int(tot['runs']),
            'distinct_nontrivial': len(sigs),
            'rule': m['rule'] + ' Distinct: by the sequence of context '
                    'switches (task, call), the points at which faults '
                    'hit (operation, call number, call, kind) and the '
                    'outcome signature of the run.',
            'samples': samples[:3],
            'runs_planned': count,
            'executions_including_profiling_and_repeats':
                int(tot['executions'] + tot['repeats']),
            'runs_per_hour': int(tot['runs'] / max(wall, 0.001) * 3600),
            'seeds_per_hour': int(tot['runs'] / max(wall, 0.001) * 3600),
            'simulated_seconds': round(float(tot['sim_seconds']), 3),
            'intercepted_calls': int(tot['steps']),
            'context_switches': int(tot['switches']),
            'runs_in_which_a_fault_fired': int(tot['with_faults']),
            'runs_with_context_switches': int(tot['with_preempts']),
            'faults_fired': dict(sorted(fired.items())),
            'probes': dict(sorted(probes.items())),
            'repeated_runs_with_same_event_log':
                int(tot['repeats'] - len(mismatches)),
            'repeated_runs_with_different_event_log': len(mismatches),
            'known_findings_met': dict(findings),
            'real_components': m['real'], 'stub_components': m['stub'],
            'wall_cap_reached': capped,
            'python_hash_seeds': sorted({1 + w % GROUPS
                                         for w in range(workers)}),
        },
        'assumptions': m.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    print('%s: %d runs, %d distinct, %d with faults, %.0f simulated s, '
          '%.1f s' % (prop, tot['runs'], len(sigs), tot['with_faults'],
                      tot['sim_seconds'], wall))
    known = known_findings(prop)
    for key in sorted(findings):
        if key in known:
            print('KNOWN-FINDING: property=%s %s (met in %d runs)'
                  % (prop, known[key]['what'], findings[key]))
    reported = []
    unreproduced = []
    best = {}
    for v in violations:
        size = len(json.dumps(v['plan']))
        c = v['violation'][0]
        if c not in best or size < best[c][0]:
            best[c] = (size, v)
    for c, (size, v) in sorted(best.items()):
        path = os.path.join(ROOT, 'replays', '%s-%s-%s.json'
                            % (prop, c, v['digest'][:8]))
        body = {'property': prop, 'class': c,
                'violation': v['final'] or v['violation'],
                'seed': seed, 'hashseed': v['plan'].get('hashseed'),
                'digest': v['digest'], 'plan': v['plan'],
                'log': v['log']}
        with open(path, 'w') as f:
            json.dump(body, f, indent=1)
        ok = False
        for _ in range(2):
            r = subprocess.run([sys.executable, os.path.join(ROOT,
                                                             'replay.py'),
                                path, '--quiet'], cwd=ROOT,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=environment(v['plan'].get('hashseed',
                                                             '1')))
            if r.returncode == 1:
                ok = True
                break
            # fall back to the plan as it was found
            body['plan'] = v['original']
            with open(path, 'w') as f:
                json.dump(body, f, indent=1)
        if ok:
            reported.append((c, path, body['violation'][1]))
        else:
            unreproduced.append((c, path, r.stdout[-500:]))
    evidence['violations'] = len(reported)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for c, path, msg in reported:
        print('%s\n  %s' % (c, msg))
    for c, path, msg in reported:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if reported:
        return 1
    for b in broken:
        print('error: ' + b)
    for h in harness[:5]:
        print('error: run %d: %s' % tuple(h))
    for u in unreproduced:
        print('error: violation %s did not replay: %s %s' % u)
    if mismatches:
        print('warning: event logs differed on repetition: runs %s'
              % mismatches[:10])
    if broken or unreproduced:
        return 2
    if harness and len(harness) > max(3, tot['runs'] // 200):
        return 2
    if tot['runs'] < count // 10:
        print('error: only %d of %d runs finished' % (tot['runs'], count))
        return 2
    return 0
