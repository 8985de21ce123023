"""Scenario base class, and executing one plan."""
import gc
import hashlib
import json
import logging
import os
import pickle
import random
import signal
import sys
import traceback

from . import kernel as _k
from .kernel import HarnessError, SimCrash, SimStop, Violation
from .vfs import VFS, is_lock_path

REPO = os.environ.get('SIM_REPO', '/repo')


def prepare():
    """Install the seams and import the code under test."""
    from . import images, patches
    sys.dont_write_bytecode = True
    known_ids(None)     # read the file while files are real
    patches.install()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None
    # stdlib modules the code under test imports lazily
    import dbm.dumb, email.generator, email.parser, shelve, tempfile  # noqa
    import encodings.idna, encodings.latin_1, encodings.utf_8  # noqa
    import requests, blinker, lockfile  # noqa
    import lockfile.linklockfile  # noqa
    patches.importing = True
    import sbclassifier  # noqa
    import sbclassifier.classifiers.storage  # noqa
    import sbclassifier.cdb  # noqa
    import sbclassifier.safepickle  # noqa
    import sbclassifier.corpora.filesystem  # noqa
    import sbclassifier.trainers  # noqa
    import sbclassifier.tokenizer  # noqa
    import sbclassifier.dnsutils  # noqa
    import sbclassifier.classifiers.slurping  # noqa
    patches.importing = False
    images.install()
    where = os.path.dirname(os.path.abspath(sbclassifier.__file__))
    if where != os.path.join(REPO, 'sbclassifier'):
        raise HarnessError('wrong sbclassifier: ' + where)
    gc.collect()
    gc.freeze()
    _k.TRACE_PREFIX = os.path.join(REPO, 'sbclassifier')


class Result:
    """What is known about one execution (picklable)."""

    def __init__(self):
        self.violation = None        # (class, message)
        self.digest = ''
        self.steps = 0
        self.switches = 0
        self.sim_seconds = 0.0
        self.fired = {}
        self.probes = {}
        self.profile = None
        self.sig = ''
        self.findings = []           # known-finding ids met
        self.harness = None          # traceback text if the harness broke
        self.log_tail = []


class Scenario:
    prop = None
    title = ''
    max_steps = 60000
    watchdog = 20.0
    #: number of runs of a quick check
    quick_runs = 4000
    thorough_runs = None
    rule = ''
    real = ('sbclassifier (all of the modules used)', 'pickle, shelve, '
            'tempfile, shutil, lockfile, email, blinker', 'CPython io '
            'buffering')
    stub = ('file system (in memory, with crash semantics)', 'clock',
            'process and thread scheduling')
    assumptions = ()

    # -- to be provided
    def generate(self, rng):
        raise NotImplementedError

    def place(self, rng, plan, profile):
        """Add faults and preemptions, knowing the calls each op makes."""

    def setup(self, env):
        """Spawn the tasks."""
        raise NotImplementedError

    def check(self, env):
        """After all tasks ended (outside the simulation)."""

    # -- shrinking: lists of the plan whose elements may go
    def simplify(self, plan):
        """Yield simpler plans (beyond dropping ops/faults/preempts)."""
        return ()


_known = None


def known_ids(prop):
    global _known
    if _known is None:
        from . import runner
        try:
            with open(runner.KNOWN) as f:
                _known = json.load(f)['findings']
        except FileNotFoundError:
            _known = []
    return {e['id'] for e in _known if prop in e['properties']}


class Env:
    def __init__(self, scenario, plan, record):
        self.scenario = scenario
        self.plan = plan
        self.cfg = plan.get('cfg', {})
        self.k = _k.Kernel(plan, plan.get('max_steps', scenario.max_steps),
                           record)
        self.vfs = VFS(self.k, plan.get('order', 0))
        self.findings = []
        self.sigparts = []
        self.data = {}

        self.kinds = {op[0]: op[1] for a in plan.get('actors', ())
                      for op in a['ops']}

    def violate(self, cls, msg):
        raise Violation(cls, msg)

    def finding(self, fid, msg):
        """A failure that may be listed as a known finding."""
        if fid not in known_ids(self.scenario.prop):
            raise Violation(fid, msg)
        self.findings.append((fid, msg))


def raised_by_system(e):
    """The system under test raised this where nothing expected it."""
    if not isinstance(e, Exception):
        return False
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return bool(files) and not files[-1].startswith(here) and any(
        f.startswith(os.path.join(REPO, 'sbclassifier')) for f in files)


def execute(scenario, plan, record=False):
    """Run one plan to its end in this process."""
    res = Result()
    gc.disable()
    prof = {} if record else None
    random.seed(12345)
    env = Env(scenario, plan, prof)
    k = env.k
    try:
        try:
            scenario.setup(env)
            k.run(watchdog=scenario.watchdog)
            if k.violation is not None:
                raise k.violation
            if k.failure is not None:
                raise Violation(k.failure[0], k.failure[1])
            scenario.check(env)
        except Violation as v:
            res.violation = (v.cls, v.message)
    except BaseException as e:
        text = ''.join(traceback.format_exception(e))[-4000:]
        if raised_by_system(e):
            res.violation = ('raises', text[-1500:])
        else:
            res.harness = text
    res.digest = k.digest()
    res.steps = k.step
    res.switches = k.switches
    res.sim_seconds = k.now
    res.fired = dict(k.fired)
    res.probes = dict(k.probes)
    res.profile = prof
    res.findings = env.findings
    points = [(env.kinds.get(op, op[:1]), io, kind, name)
              for op, io, kind, name in k.fault_points]
    res.sig = hashlib.blake2b(repr((k.switch_points, points,
                                    env.sigparts)).encode(),
                              digest_size=8).hexdigest()
    res.log_tail = k.log[-400:]
    return res


def fork_execute(scenario, plan, record=False, timeout=90, full_log=False):
    """Run one plan in a forked child: nothing of it survives."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = execute(scenario, plan, record)
            if not full_log and res.violation is None:
                res.log_tail = []
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    import select
    chunks = []
    killed = False
    fd = r
    while True:
        ready, _, _ = select.select([fd], [], [], timeout)
        if not ready:
            killed = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(fd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(fd)
    os.waitpid(pid, 0)
    if killed:
        res = Result()
        res.harness = 'child killed after %d s' % timeout
        return res
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        res = Result()
        res.harness = 'child died'
        return res


class NothingToChoose(IndexError):
    """A fault has no place in what the fault-free run did."""


class PlanRandom(random.Random):

    def choice(self, seq):
        if not seq:
            raise NothingToChoose
        return super().choice(seq)


def plan_rng(seed, prop, i):
    h = hashlib.blake2b(('%s/%s/%s' % (seed, prop, i)).encode(),
                        digest_size=16).digest()
    return PlanRandom(int.from_bytes(h, 'big'))


def make_plan(scenario, seed, i):
    """The plan of run i; may need a profiling execution."""
    rng = plan_rng(seed, scenario.prop, i)
    plan = scenario.generate(rng)
    plan['prop'] = scenario.prop
    plan.setdefault('order', rng.randrange(1 << 30))
    plan.setdefault('faults', [])
    plan.setdefault('preempt', [])
    res = None
    if plan.pop('_profile', True):
        plan['profiled'] = True
        res = fork_execute(scenario, plan, record=True)
        if res.violation or res.harness:
            return plan, res
        try:
            scenario.place(rng, plan, res.profile)
        except NothingToChoose:
            pass        # with the faults placed before it
        if not plan['faults'] and not plan['preempt']:
            return plan, res
    return plan, None


# ---------------------------------------------------------------- placement
def calls(profile, want=None, skip_locks=True, ops=None):
    """[(op, io, name, path)] of the profile, in order."""
    out = []
    for op, cs in profile.items():
        if ops is not None and op not in ops:
            continue
        for n, (name, path) in enumerate(cs, 1):
            if want is not None and name not in want:
                continue
            if skip_locks and is_lock_path(path):
                continue
            out.append((op, n, name, path))
    return out


def place_preempts(rng, plan, profile, n, kinds=None):
    cs = calls(profile, kinds, skip_locks=False)
    if not cs:
        return
    for _ in range(n):
        op, io, name, path = rng.choice(cs)
        plan['preempt'].append([op, io, rng.randrange(4)])


def dense_preempts(rng, plan, cs, lengths=(10, 30, 60), reach=0):
    """Some place (a line, or a call on a file): the operations that come to
    it go on in small steps from there.  cs: as from calls()."""
    if not cs:
        return
    spot = rng.choice(sorted({c[2:4] for c in cs}, key=repr))

    def near(c):
        if c[2] != spot[0] or c[2] != 'line':
            return c[2:4] == spot
        f, n = c[3].split(':')
        g, m = spot[1].split(':')
        return f == g and abs(int(n) - int(m)) <= reach
    places = {}
    for c in cs:
        if near(c):
            places.setdefault(c[0], []).append(c[1])
    density = rng.choice([0.1, 0.3, 0.6])
    for op, ios in sorted(places.items()):
        start = ios[0] if rng.random() < 0.6 else rng.choice(ios)
        for io in range(start, start + rng.choice(lengths)):
            if rng.random() < density:
                plan['preempt'].append([op, io, rng.randrange(4)])


# ---------------------------------------------------------------- shrinking
def _lists(plan):
    """Paths of the shrinkable lists in a plan."""
    out = [('preempt',), ('faults',)]
    for i, a in enumerate(plan.get('actors', ())):
        out.append(('actors', i, 'ops'))
    for extra in plan.get('shrink', ()):
        out.append(tuple(extra))
    return out


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, value):
    new = json.loads(json.dumps(plan))
    obj = new
    for p in path[:-1]:
        obj = obj[p]
    obj[path[-1]] = value
    return new


def shrink(scenario, plan, cls, budget=400, deadline=None):
    """ddmin over every list of the plan, keeping the violation class."""
    import time
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        if tries > budget or (deadline and time.monotonic() > deadline):
            return False
        r = fork_execute(scenario, p)
        return r.violation is not None and r.violation[0] == cls

    changed = True
    while changed and tries <= budget:
        changed = False
        for path in _lists(plan):
            try:
                items = _get(plan, path)
            except (KeyError, IndexError):
                continue
            n = 2
            while items:
                size = max(1, len(items) // n)
                start = 0
                reduced = False
                while start < len(items):
                    cand = items[:start] + items[start + size:]
                    p = _with(plan, path, cand)
                    if fails(p):
                        plan, items = p, cand
                        reduced = changed = True
                    else:
                        start += size
                if size == 1 and not reduced:
                    break
                if not reduced:
                    n = min(len(items), n * 2) or 1
                    if size == 1:
                        break
        for p in scenario.simplify(plan):
            if fails(p):
                plan = p
                changed = True
                break
    return plan, tries
