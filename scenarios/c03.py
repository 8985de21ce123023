"""C03: concurrent pickle readers and writers see one atomic file."""
from simkit.images import Mod
from simkit import kernel as _k
from simkit.kernel import SimCrash
from simkit.linear import Op, register
from simkit.sim import Scenario, calls, dense_preempts, place_preempts

from .common import describe

PATH = '/data/home/shared.pck'


class C03(Scenario):
    prop = 'C03'
    quick_runs = 9000
    rule = ('A run lets two to four tasks (threads of one to three processes) '
            'write unique or recurring values to and read one pickle file, '
            'through '
            'pickle_write/pickle_read and through PickleClassifier, under a '
            'random schedule of preemptions at intercepted calls, with slow '
            'calls, I/O errors and killed processes in some of the runs; the '
            'history of return values is checked for linearizability.')
    assumptions = (
        'A lock file left by a killed process makes later calls time out '
        '(known finding); such calls count as failed ones.',)

    def generate(self, rng):
        ntasks = rng.choice([2, 2, 3, 3, 4])
        nprocs = rng.randint(1, ntasks)
        style = rng.choice(['pickle', 'pickle', 'classifier'])
        actors = []
        n = 0
        # the values written: all different, or a few over and over
        values = rng.choice([None, None, 1, 2, 3])
        for i in range(ntasks):
            ops = []
            for j in range(rng.randint(1, 4)):
                n += 1
                ops.append(['t%d' % n, rng.choice(['w', 'w', 'r', 'r', 'r']),
                            rng.randint(1, values) if values else n])
            actors.append({'name': 'T%d' % i, 'proc': i % nprocs,
                           'ops': ops})
        return {'cfg': {'style': style, 'initial': rng.random() < 0.6,
                        'big': rng.choice([0, 0, 3000, 20000]),
                        'relative': rng.random() < 0.3},
                'actors': actors}

    def place(self, rng, plan, profile):
        profile = {op: c for op, c in profile.items() if op not in ('init', 'final')}
        place_preempts(rng, plan, profile, rng.choice([1, 2, 3, 4, 6, 10,
                                                       20]))
        if rng.random() < 0.25:
            dense_preempts(rng, plan, calls(profile, skip_locks=False), (5, 10, 30))
        mode = rng.random()
        cs = calls(profile, skip_locks=True)
        if mode < 0.3:
            for _ in range(rng.randint(1, 3)):
                op, io, name, path = rng.choice(cs)
                plan['faults'].append({'op': op, 'io': io, 'kind': 'stall',
                                       'sec': rng.choice([0.5, 3, 15, 25,
                                                          60])})
        if mode > 0.2 and mode < 0.55:
            es = [c for c in cs if c[2] in ('open', 'open-w', 'read', 'write',
                                            'fsync', 'rename', 'chmod')]
            for _ in range(rng.randint(1, 2)):
                op, io, name, path = rng.choice(es)
                f = {'op': op, 'io': io, 'kind': 'err', 'errno': 'EIO'}
                if name == 'write':
                    f.update(kind=rng.choice(['err', 'full', 'short']),
                             keep=rng.choice([0, 0.5]))
                    if f['kind'] != 'err':
                        del f['errno']
                plan['faults'].append(f)
        if mode > 0.5 and mode < 0.75:
            op, io, name, path = rng.choice(calls(profile,
                                                  skip_locks=False))
            f = {'op': op, 'io': io, 'kind': 'crash'}
            if name == 'write':
                f['torn'] = rng.choice([0, 0.5, 1])
            plan['faults'].append(f)

    sp = Mod('safepickle')

    @property
    def cls(self):
        from sbclassifier.classifiers.storage import PickleClassifier
        return PickleClassifier

    def setup(self, env):
        env.data['history'] = []
        env.data['crashed'] = False
        path = 'shared.pck' if env.cfg['relative'] else PATH
        env.data['path'] = path
        procs = {}
        if env.cfg['initial']:
            # written before the concurrent part starts
            def first(t):
                res = env.k.call('init', self.write, env, 1000)
                if res[0] == 'exc':
                    env.violate('op-fails', 'first write: ' + describe(res))
                env.data['ready'] = True
                env.k.unblock('ready')
            env.k.spawn('init', first)
        else:
            env.data['ready'] = True
        for a in env.plan['actors']:
            p = procs.get(a['proc'])
            if p is None:
                p = procs[a['proc']] = env.k.new_proc('P%d' % a['proc'])
            env.k.spawn(a['name'], lambda t, a=a: self.actor(env, t, a), p)

    def value(self, env, n):
        # (different values are of different sizes)
        return {'n': n, 'pad': 'p' * self.size(env, n), 'end': n}

    @staticmethod
    def size(env, n):
        return (env.cfg['big'] + 40) * (1 + n * 7 % 5) // 3

    def write(self, env, n):
        if env.cfg['style'] == 'pickle':
            return self.sp.pickle_write(env.data['path'],
                                        self.value(env, n))
        key = _k.current_task().proc.pid, n
        c = env.data.setdefault('writers', {}).get(key)
        if c is None:
            # a model with a unique state (built without touching the file)
            c = self.cls.__new__(self.cls)
            from sbclassifier.classifiers.basic import Classifier
            Classifier.__init__(c)
            c.filename = env.data['path']
            for i in range(1 + self.size(env, n) // 300):
                c.learn(['w%d-%s' % (i, 'x' * 20)], True)
            c.nham = n
            env.data['writers'][key] = c
        c.store()

    def read(self, env):
        """The number of the value found, or None for a new file."""
        if env.cfg['style'] == 'pickle':
            try:
                v = self.sp.pickle_read(env.data['path'])
            except FileNotFoundError:
                return None
            if not isinstance(v, dict) or v != self.value(env, v.get('n')):
                return ('torn', repr(v)[:80])
            return v['n']
        c = self.cls(env.data['path'])
        if c.nham == 0 and c.nspam == 0:
            return None
        if c.nspam != 1 + self.size(env, c.nham) // 300:
            return ('torn', c.nspam, c.nham)
        return c.nham

    def actor(self, env, t, a):
        k = env.k
        while not env.data.get('ready'):
            k.block('ready')
        for opid, kind, n in a['ops']:
            rec = [kind, n, len(k.log), None, None, a['name']]
            env.data['history'].append(rec)
            try:
                if kind == 'w':
                    res = k.call(opid, self.write, env, n)
                else:
                    res = k.call(opid, self.read, env)
            except SimCrash:
                rec[3] = len(k.log)
                rec[4] = ('crash', None)
                env.data['crashed'] = True
                k.note('%s crashed' % a['name'])
                raise
            k.note('%s %s -> %s' % (a['name'], opid, res[0]))
            rec[3] = len(k.log)
            rec[4] = res
            k.note('.')

    def check(self, env):
        d = env.data
        h = d['history']
        faulty = sum(env.k.fired.values()) > 0
        lines = []
        ops = []
        for kind, n, start, end, res, who in h:
            if res is None:
                # its process was killed in another thread
                res, end = ('crash', None), None
                d['crashed'] = True
            if kind == 'r' and res[0] == 'ok':
                n = res[1]
                if isinstance(n, tuple):
                    env.violate('torn-read', '%s read %r' % (who, n))
            lines.append('%s %s %s %s' % (who, kind, n, res[0] if res[0] !=
                                          'exc' else describe(res)))
            if res[0] == 'exc' and not faulty:
                env.violate('op-fails', '%s %s without any fault: %s'
                            % (who, kind, describe(res)))
            if res[0] == 'exc':
                if type(res[1]).__name__ == 'LockTimeout':
                    env.k.probes['lock time-outs'] += 1
                elif not isinstance(res[1], OSError):
                    env.violate('op-fails', '%s %s: %s'
                                % (who, kind, describe(res)))
            ops.append(Op(kind, n, start, end, res[0] == 'ok'))
            env.sigparts.append((kind, res[0]))
        initial = 1000 if env.cfg['initial'] else None
        if not register(ops, initial):
            env.violate('not-linearizable', 'initially %s; %s'
                        % (initial, '; '.join(lines)))
        env.k.probes['overlapping operations'] += any(
            a.start < (b.end or 1e9) and b.start < (a.end or 1e9)
            for i, a in enumerate(ops) for b in ops[:i])
        if not d['crashed']:
            left = sorted(p for p in env.vfs.tree()
                          if p not in (PATH, '/data/home'))
            if any(p.endswith('.lock') for p in left):
                env.violate('still-locked', 'when all have finished: %s'
                            % left)
            if left and not faulty:
                env.violate('left-behind', 'when all have finished: %s'
                            % left)
            final = []

            def last(t):
                final.append(env.k.call('final', self.read, env))
            t = env.k.spawn('final', last)
            env.k.tasks = [t]
            env.k.main_sem.acquire(False)
            env.k.run()
            if not final or final[0][0] == 'exc' or \
                    isinstance(final[0][1], tuple):
                env.violate('unreadable', 'when all have finished: %s' % (
                    describe(final[0]) if final and final[0][0] == 'exc'
                    else final))
            ops.append(Op('r', final[0][1], 10 ** 9, 10 ** 9 + 1, True))
            if not register(ops, initial):
                env.violate('not-linearizable', 'initially %s; %s; in the '
                            'end %s' % (initial, '; '.join(lines),
                                        final[0][1]))
        elif any(p.endswith('.lock') for p in env.vfs.tree()):
            env.finding('stale-lock', 'a killed process left its lock: ' +
                        '; '.join(lines))


SCENARIO = C03()
