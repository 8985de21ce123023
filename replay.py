#!/opt/venv/bin/python
"""replay.py FILE [--quiet]: execute a replay file; exit 1 if it still shows
the violation, 0 if not."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from simkit import runner, sim  # noqa: E402

path = [a for a in sys.argv[1:] if not a.startswith('--')][0]
body = json.load(open(path))
want = str(body.get('hashseed') or '1')
if os.environ.get('PYTHONHASHSEED') != want or \
        os.environ.get('PYTHONPYCACHEPREFIX') is None:
    os.execve(sys.executable, [sys.executable] + sys.argv,
              runner.environment(want))
sim.prepare()
sc = runner.scenario_for(body['property'])
res = sim.fork_execute(sc, body['plan'], full_log=True)
if '--quiet' not in sys.argv:
    for line in res.log_tail:
        print(line)
print('digest %s (recorded %s)' % (res.digest, body.get('digest')))
if res.harness:
    print(res.harness)
    sys.exit(2)
if res.violation:
    print('%s: %s' % tuple(res.violation))
    if res.violation[0] == body['class']:
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
        sys.exit(1)
print('not reproduced')
sys.exit(0)
