"""Is one seed one execution?

    selftest.py [-n RUNS] [PROPERTY...]

Makes and executes the same runs in two processes that have as little as
possible in common (order of the runs, working directory, environment, load,
memory layout) and compares every plan and every event log. Needs to be the
same only for the same PYTHONHASHSEED, which a replay file records.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['C%02d' % i for i in range(1, 17)]


def worker(prop, n, direction, out):
    sys.path.insert(0, ROOT)
    from simkit import runner, sim
    sim.prepare()
    sc = runner.scenario_for(prop)
    ballast = [bytearray(4096) for _ in range(5000)] \
        if direction == 'back' else None
    result = {}
    order = range(n)
    for i in (reversed(order) if direction == 'back' else order):
        plan, res = sim.make_plan(sc, 'selftest', i)
        if res is None:
            res = sim.fork_execute(sc, plan)
        h = hashlib.sha1(json.dumps(plan, sort_keys=True).encode())
        result[i] = [h.hexdigest(), res.digest, repr(res.violation),
                     res.harness or '', res.steps]
    del ballast
    with open(out, 'w') as f:
        json.dump(result, f)


def main(argv):
    n = 60
    if argv[:1] == ['-n']:
        n, argv = int(argv[1]), argv[2:]
    sys.path.insert(0, ROOT)
    from simkit import runner
    bad = 0
    for prop in argv or PROPS:
        with tempfile.TemporaryDirectory(prefix='selftest') as tmp:
            ps = []
            for direction in 'forth', 'back':
                for hs in 1, 5:
                    env = runner.environment(hs)
                    if direction == 'back':
                        env['SELFTEST_' + 'X' * 500] = 'y' * 3000
                    out = os.path.join(tmp, '%s%d' % (direction, hs))
                    ps.append(subprocess.Popen(
                        [sys.executable, os.path.abspath(__file__),
                         '--worker', prop, str(n), direction, out],
                        env=env, cwd='/' if direction == 'back' else ROOT))
            codes = [p.wait() for p in ps]
            if any(codes):
                print('%s: a worker failed' % prop)
                bad += 1
                continue
            for hs in 1, 5:
                a, b = (json.load(open(os.path.join(tmp, '%s%d' % (d, hs))))
                        for d in ('forth', 'back'))
                diff = [i for i in a if a[i] != b[i]]
                if diff:
                    bad += 1
                    for i in diff[:3]:
                        print(prop, hs, i, a[i], b[i])
                print('%s, hash seed %d: %d runs twice, %d differ'
                      % (prop, hs, n, len(diff)), flush=True)
    return 1 if bad else 0


if sys.argv[1:2] == ['--worker']:
    worker(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5])
else:
    sys.exit(main(sys.argv[1:]))
