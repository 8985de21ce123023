"""C11: expiry removes exactly the expired messages, under any clock."""
from simkit.sim import Scenario, calls

from . import common, corpus
from .common import describe
from .corpus import DIR, canon, canon_raw, matches

NAMES = ['m1.eml', 'm2.eml', 'm3.eml', 'm4.eml', 'm5.eml', 'notes.txt',
         'index.pck']
EPS = 0.01


class C11(Scenario):
    prop = 'C11'
    quick_runs = 9000
    rule = ('A run is a random history of add/re-add/remove/expire/restart '
            'on an expiring corpus while the simulated clock advances by '
            'fractions and multiples of the age and jumps forwards and '
            'backwards, files appear and vanish, and (in some runs) '
            'file-system calls of an expiry fail; the files are compared '
            'with their times after every operation.')
    assumptions = (
        'The age of a file is that of its last change (modification and '
        'status change times agree).',
        'After the clock has been set back, removal is only required once '
        'it is past the highest time seen by more than the age.')

    def generate(self, rng):
        age = rng.choice([1, 10, 60, 3600, 604800, 0.5])
        steps = [0, age * 0.1, age * 0.5, age * 0.9, age - EPS, age + EPS,
                 age * 1.5, age * 2, age * 10, 1, 0.001]
        cfg = {'age': age, 'filter': rng.choice(['*.eml', '*.eml', '*']),
               'size': rng.choice([1, 2, 256]),
               'trainer': rng.random() < 0.7}
        ops, msgs = [], []

        def msg():
            msgs.append(corpus.gen_message(rng, len(msgs), 0.2))
            return len(msgs) - 1
        back = rng.random() < 0.35
        for i in range(rng.randint(4, rng.choice([10, 20, 40]))):
            oid = 'a%d' % i
            r = rng.random()
            name = rng.choice(NAMES)
            if r < 0.26:
                ops.append([oid, 'add', name, msg()])
            elif r < 0.32:
                ops.append([oid, 'foreign-add', name, msg()])
            elif r < 0.36:
                ops.append([oid, 'foreign-remove', name, 0])
            elif r < 0.40:
                ops.append([oid, 'remove', name, 0])
            elif r < 0.62:
                ops.append([oid, 'advance', '', rng.choice(steps)])
            elif r < 0.70:
                sec = rng.choice(steps + [30 * age, 86400])
                if back and rng.random() < 0.6:
                    sec = -sec
                ops.append([oid, 'jump', '', sec])
            elif r < 0.93:
                ops.append([oid, 'expire', '', 0])
            elif r < 0.97:
                ops.append([oid, 'restart', '', 0])
            else:
                ops.append([oid, 'directory', '', i])
        return {'cfg': cfg, 'messages': msgs,
                '_profile': rng.random() < 0.4,
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        exp = {op[0] for op in plan['actors'][0]['ops'] if op[1] == 'expire'}
        cs = calls(profile, ops=exp)
        for _ in range(rng.choice([1, 1, 2])):
            if not cs:
                return
            un = [c for c in cs if c[2] == 'unlink']
            op, io, name, path = rng.choice(
                un if un and rng.random() < 0.6 else cs)
            r = rng.random()
            if r < 0.3:
                f = {'op': op, 'io': io, 'kind': 'crash'}
            elif r < 0.45:
                f = {'op': op, 'io': io, 'kind': 'jump',
                     'sec': rng.choice([1, 2]) * plan['cfg']['age']}
            elif r < 0.6:
                f = {'op': op, 'io': io, 'kind': 'stall',
                     'sec': plan['cfg']['age'] * rng.choice([0.2, 0.6, 1.2])}
            elif r < 0.75:
                # another program removes or adds a message meanwhile
                f = {'op': op, 'io': io, 'kind': 'meddle',
                     'name': rng.choice(NAMES)}
                at = [c for c in cs if c[2] in ('stat', 'open')]
                if at and rng.random() < 0.6:
                    f['op'], f['io'], _, path = rng.choice(at)
                    f['name'] = path.split('/')[-1]
            else:
                f = {'op': op, 'io': io, 'kind': 'err',
                     'errno': rng.choice(['EACCES', 'EIO', 'EPERM', 'EBUSY']),
                     'sticky': rng.random() < 0.3}
            plan['faults'].append(common.interrupt(rng, f))

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs(DIR)
        env.vfs.mkdirs('/data/home/other')
        env.vfs.poke('/data/home/other/old.eml', b'Subject: old\n\n', 0)
        env.vfs.poke('/data/home/old.eml', b'Subject: old\n\n', 0)
        env.vfs.sync_all()
        d['files'] = {}          # name -> message index
        d['high'] = 0            # highest clock seen by this process
        d['back'] = False        # the clock was set back since it started
        d['outside'] = None
        env.k.on_meddle = lambda f: self.meddle(env, f['name'])
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a.env, 'start'))
        env.sigparts.append((sorted(env.cfg.items()), [
            o[1:] for o in env.plan['actors'][0]['ops']]))

    def meddle(self, env, name):
        d = env.data
        path = DIR + '/' + name
        if name in d['files']:
            if env.vfs.peek_stat(path) is not None:
                env.vfs.poke_unlink(path)
                env.k.probes['removed during an expiry'] += 1
                del d['files'][name]
        elif name in NAMES and env.plan['messages']:
            d['files'][name] = 0
            env.vfs.poke(path, corpus.raw(env.plan['messages'][0]))
            d['times'][name] = self.times(env, name)

    def new(self, env):
        from sbclassifier.corpora.filesystem import ExpiryFileCorpus
        return ExpiryFileCorpus(env.cfg['age'], DIR, env.cfg['filter'],
                                cache_size=env.cfg['size'])

    def open(self, env, opid):
        d = env.data
        res = env.k.call(opid, self.new, env)
        if res[0] == 'exc':
            env.violate('op-fails', 'opening the corpus: ' + describe(res))
        d['c'] = res[1]
        d['high'] = env.k.wall()
        d['back'] = False
        d['failed'] = False
        if env.cfg['trainer']:
            from sbclassifier.classifiers.basic import Classifier
            from sbclassifier.trainers import HamTrainer
            d['cl'] = Classifier()
            d['tr'] = HamTrainer(d['cl'], [d['c']])
            d['trained'] = 0

    def recover(self, a):
        # killed while it was removing expired messages
        self.files(a.env, 'a killed expiry', a.env.data['t0'], False)
        self.open(a.env, 'r%d' % a.crashes)

    def times(self, env, name):
        n = env.vfs.peek_stat(DIR + '/' + name)
        return None if n is None else (min(n.mtime, n.ctime),
                                       max(n.mtime, n.ctime))

    def files(self, env, what, t0, complete):
        """Compare the directory with the model after an expiry that began
        at clock time t0."""
        d = env.data
        age = env.cfg['age']
        now = max(env.k.wall(), t0)
        due_clock = (not d['back'] or t0 > d['high'] + age + EPS)
        for name in sorted(d['files']):
            there = env.vfs.peek_stat(DIR + '/' + name) is not None
            lo, hi = d['times'][name]
            if not there:
                if not matches(name, env.cfg['filter']):
                    env.violate('foreign', '%s removed %r, which is no '
                                'message of the corpus' % (what, name))
                if now - lo < age - EPS:
                    env.violate('too-early', '%s removed %r, which is only '
                                '%.3f s old (limit %s s)'
                                % (what, name, now - lo, age))
                env.k.probes['expired'] += 1
                del d['files'][name]
                continue
            if complete and matches(name, env.cfg['filter']) and \
                    t0 - hi > age + EPS and due_clock:
                env.violate('too-late', '%s left %r, which is %.3f s old '
                            '(limit %s s)' % (what, name, t0 - hi, age))
        self.outside(env)

    def outside(self, env):
        d = env.data
        now = {p: v for p, v in env.vfs.tree().items()
               if not p.startswith(DIR + '/')}
        now.update({p: v for p, v in env.vfs.tree(DIR).items() if v is None})
        if d['outside'] is None:
            d['outside'] = now
        gone = set(d['outside']) - set(now)
        if gone:
            env.violate('outside', 'files outside the corpus have gone: %s'
                        % sorted(gone))
        d['outside'] = now

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, name, x = op
        path = DIR + '/' + name
        if kind == 'add':
            if not matches(name, env.cfg['filter']):
                return
            m = corpus.build(env.plan['messages'][x], name)
            # (adding a message that is there trains it twice: C12)
            res = k.call(opid, d['c'].add_message, m)
            if res[0] == 'exc':
                env.violate('op-fails', 'add_message: ' + describe(res))
            d['files'][name] = x
            d['trained'] = d.get('trained', 0) + 1
        elif kind == 'foreign-add':
            env.vfs.poke_unlink(path)
            env.vfs.poke(path, corpus.raw(env.plan['messages'][x]))
            d['files'][name] = x
            k.fire('foreign-add')
        elif kind == 'foreign-remove':
            if name in d['files']:
                env.vfs.poke_unlink(path)
                del d['files'][name]
                k.fire('foreign-remove')
        elif kind == 'remove':
            if name not in d['files'] or not matches(name,
                                                     env.cfg['filter']):
                return
            res = k.call(opid + 'g', d['c'].__getitem__, name)
            if res[0] == 'exc':
                env.violate('op-fails', 'lookup: ' + describe(res))
            res = k.call(opid, d['c'].remove_message, res[1], False)
            if res[0] == 'exc':
                env.violate('op-fails', 'remove_message: ' + describe(res))
            del d['files'][name]
        elif kind == 'advance':
            k.now += x
        elif kind == 'jump':
            k.wall_offset += x
            k.fire('clock jump ' + ('back' if x < 0 else 'forward'))
            if x < 0:
                d['back'] = True
        elif kind == 'directory':
            env.vfs.mkdirs('%s/sub%d.eml' % (DIR, x))
        elif kind == 'restart':
            k.kill(a.task.proc)
            a.task.proc = k.new_proc('A-%s' % opid)
            k.fire('restart')
            self.open(env, opid)
        elif kind == 'expire':
            self.op_expire(a, env, opid)
        d['high'] = max(d['high'], k.wall())
        self.outside(env)
        self.contents(env, opid)

    def op_expire(self, a, env, opid):
        d = env.data
        k = env.k
        d['times'] = {n: self.times(env, n) for n in d['files']}
        t0 = d['t0'] = k.wall()
        res = k.call(opid, d['c'].remove_expired_messages)
        faulted = any(p[0] == opid and p[2] == 'err'
                      for p in k.fault_points)
        if res[0] == 'exc':
            if not faulted:
                env.violate('op-fails', 'remove_expired_messages: ' +
                            describe(res))
            k.probes['failed expiries'] += 1
        self.files(env, 'expiry', t0, res[0] == 'ok' and not faulted)
        if faulted:
            # what could not be removed is removed by a later call
            d['times'] = {n: self.times(env, n) for n in d['files']}
            t0 = k.wall()
            res = k.call(opid + 'r', d['c'].remove_expired_messages)
            if res[0] == 'exc':
                env.violate('op-fails', 'remove_expired_messages after a '
                            'failed one: ' + describe(res))
            self.files(env, 'the next expiry', t0, True)
        if env.cfg['trainer'] and d['cl'].nham != d['trained']:
            env.violate('untrained', 'expiry changed the training: %d '
                        'messages trained, %d were'
                        % (d['cl'].nham, d['trained']))
        k.probes['expiries'] += 1

    def contents(self, env, opid):
        d = env.data
        want = sorted(n for n in d['files']
                      if matches(n, env.cfg['filter']))
        res = env.k.call(opid + 'k', lambda: list(d['c'].keys()))
        if res[0] == 'exc' or sorted(res[1]) != want:
            env.violate('keys', 'the corpus shows %s, the directory holds %r'
                        % (res[1], want))
        for n in want[:2]:
            res = env.k.call(opid + n, d['c'].__getitem__, n)
            if res[0] == 'exc':
                env.violate('unreadable', '%r: %s' % (n, describe(res)))
            m = env.plan['messages'][d['files'][n]]
            if canon(res[1]) != canon_raw(m):
                env.violate('damaged', '%r reads %.300r'
                            % (n, canon(res[1])))


SCENARIO = C11()
