"""C06: a shelf store() that fails can be retried without loss."""
from simkit.kernel import SimCrash
from simkit.sim import Scenario, calls

from . import backends, common
from .backends import Shelf, all_words, as_stream, words_of
from .common import Model, describe, diff, observe

DB = {'db-get', 'db-set', 'db-del', 'db-has', 'db-sync', 'db-open'}
FILE = {'open', 'open-w', 'read', 'write', 'rename', 'unlink', 'fsync',
        'truncate', 'close'}


class C06(Scenario):
    prop = 'C06'
    quick_runs = 9000
    rule = ('A run is a random history of learn/unlearn/score/store/kill on '
            'a shelf classifier over one of five dbm behaviours with one to '
            'four failing database calls (of dbm.dumb: file-system calls), '
            'some of which take effect although they raise, some repeated '
            'until the operation ends or in the retry too.')
    assumptions = (
        'Closing a dbm without sync() cannot report an error.',
        'A failed sync keeps the unsynced updates in the dbm module.')
    stub = Scenario.stub + ('dbm module (four behaviours; the fifth is the '
                            'real dbm.dumb on the simulated disk)',)

    def generate(self, rng):
        cfg = {'backend': 'shelf', 'dbm': rng.choice(backends.DBMS)}
        vocab = backends.vocabulary(rng, cfg)
        ops = []
        trained = []
        n = rng.randint(3, rng.choice([8, 16, 25]))
        for i in range(n):
            oid = 'a%d' % i
            r = rng.random()
            if r < 0.42 or not trained:
                m, s = rng.randrange(6), rng.random() < 0.6
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
            elif r < 0.64:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.70:
                ops.append([oid, 'score', rng.randrange(6)])
            elif r < 0.92:
                ops.append([oid, 'store'])
            elif cfg['dbm'] != 'dumb':
                ops.append([oid, 'kill', rng.choice([0, 0.3, 0.7, 1])])
        ops.append(['end', 'store'])
        return {'cfg': cfg,
                'messages': common.gen_messages(rng, 6, vocab, 4),
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        own = {op[0]: op[1] for op in plan['actors'][0]['ops']}
        want = FILE if plan['cfg']['dbm'] == 'dumb' else DB
        cs = [c for c in calls(profile, want) if c[0] in own]
        stores = [c for c in cs if own[c[0]] == 'store']
        updates = [c for c in cs if c[2] in ('db-set', 'db-del', 'db-sync',
                                             'write', 'rename')]
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            r = rng.random()
            pool = (stores if r < 0.5 else updates if r < 0.8 else cs) or cs
            if not pool:
                return
            op, io, name, path = rng.choice(pool)
            f = {'op': op, 'io': io}
            if name == 'write' and rng.random() < 0.5:
                f.update(kind='full', keep=rng.choice([0, 0.5]))
            else:
                f.update(kind='err', errno='EIO')
            if name in ('db-set', 'db-del') and rng.random() < 0.3:
                f['applied'] = True
            if name == 'db-sync':
                f['keep'] = rng.choice([0, 0, 0.5, 1])
            if rng.random() < 0.2:
                f['sticky'] = True
            plan['faults'].append(f)
            if own[op] == 'store' and rng.random() < 0.3:
                # the retry meets a fault, too
                g = dict(f, op=op + 'r1')
                g['io'] = max(1, io + rng.randint(-2, 2))
                plan['faults'].append(g)

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        d['b'] = Shelf(env)
        d['words'] = all_words(env.plan)
        d['model'] = Model()
        d['stored'] = Model()
        d['dirty'] = False
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))

    def where(self, env):
        return env.cfg['dbm']

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s (%s): %s' % (what, self.where(env),
                                                     describe(res)))
        return res[1]

    def open(self, a, opid):
        env = a.env
        env.data['c'] = self.ok(env, env.k.call(opid, env.data['b'].open),
                                'open')

    def look(self, env, opid, c, what):
        """What c reports; every word must be usable."""
        got = self.ok(env, env.k.call(opid + 'l', observe, c,
                                      env.data['words']),
                      'looking words up after ' + what)
        scores = {}
        for w in env.data['words']:
            res = env.k.call(opid + 's', c.spamprob, [w])
            if res[0] == 'exc':
                env.violate('unusable', 'after %s (%s), scoring %r: %s' % (
                    what, self.where(env), w, describe(res)))
            scores[w] = res[1]
        for w, (s, h) in got.counts.items():
            if s > got.nspam or h > got.nham or s < 0 or h < 0:
                env.violate('unsound', 'after %s (%s), %r has counts %d/%d, '
                            'the totals are %d/%d' % (
                                what, self.where(env), w, s, h, got.nspam,
                                got.nham))
        ref = common.classifier_of(got)
        for w, p in scores.items():
            if p != ref.spamprob([w]):
                env.violate('stale-score', 'after %s (%s), the score of %r is '
                            '%r, but its counts %s and the totals %d/%d make '
                            '%r' % (what, self.where(env), w, p,
                                    got.counts.get(w), got.nspam, got.nham,
                                    ref.spamprob([w])))
        return got

    def same(self, env, opid, c, want, cls, what):
        got = self.look(env, opid, c, what)
        if got != want:
            env.violate(cls, 'after %s (%s): %s' % (what, self.where(env),
                                                    diff(got, want)))

    def recover(self, a):
        env = a.env
        d = env.data
        opid = 'r%d' % a.crashes
        self.open(a, opid)
        if not d['dirty']:
            self.same(env, opid, d['c'], d['stored'], 'lost-update',
                      'a completed store and a restart')
            d['model'] = d['stored'].copy()
        else:
            got = self.look(env, opid, d['c'], 'a crash')
            d['model'] = got

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind = op[0], op[1]
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            old = d['model']
            if kind == 'unlearn' and not old.trained(ws, op[3]):
                return
            new = old.copy()
            new.train(ws, op[3], 1 if kind == 'learn' else -1)
            d['dirty'] = True
            nfired = sum(k.fired.values())
            res = k.call(opid, getattr(d['c'], kind), as_stream(ws, op[4]),
                         op[3])
            if res[0] == 'ok':
                d['model'] = new
                if (d['c'].nspam, d['c'].nham) != (new.nspam, new.nham):
                    env.violate('wrong-totals', kind)
                return
            if sum(k.fired.values()) == nfired:
                env.violate('op-fails', '%s (%s): %s' % (
                    kind, self.where(env), describe(res)))
            k.probes['failed ' + kind] += 1
            got = self.look(env, opid, d['c'], 'a failed ' + kind)
            for what in ('nspam', 'nham'):
                if getattr(got, what) not in (getattr(old, what),
                                              getattr(new, what)):
                    env.violate('wrong-totals', 'after a failed %s %s is %d'
                                % (kind, what, getattr(got, what)))
            for w in d['words']:
                n = got.counts.get(w, (0, 0))
                if n not in (old.counts.get(w, (0, 0)),
                             new.counts.get(w, (0, 0))):
                    env.violate('wrong-counts', 'after a failed %s of %r, %r '
                                'has counts %s instead of %s or %s' % (
                                    kind, ws, w, n,
                                    old.counts.get(w, (0, 0)),
                                    new.counts.get(w, (0, 0))))
            # from now on: what the failed message left, all others intact
            got.msgs = (old if kind == 'learn' else new).msgs.copy()
            d['model'] = got
        elif kind == 'score':
            nfired = sum(k.fired.values())
            res = k.call(opid, d['c'].spamprob, words_of(env.plan, op[2]))
            if res[0] == 'exc':
                if sum(k.fired.values()) == nfired:
                    env.violate('unusable', 'scoring (%s): %s' % (
                        self.where(env), describe(res)))
                self.same(env, opid, d['c'], self.seen(env), 'memory-changed',
                          'a failed spamprob()')
        elif kind == 'store':
            self.store(a, opid)
        elif kind == 'kill':
            k.crash_keep = op[2]
            k.kill(a.task.proc)
            k.fire('crash:between operations')
            raise SimCrash

    def seen(self, env):
        d = env.data
        n = Model(d['model'])
        n.counts = {w: c for w, c in n.counts.items()
                    if w in set(d['words'])}
        return n

    def store(self, a, opid):
        env = a.env
        d = env.data
        k = env.k
        for n in range(4):
            nfired = sum(k.fired.values())
            res = k.call(opid + ('r%d' % n if n else ''), d['c'].store)
            if res[0] == 'ok':
                break
            if sum(k.fired.values()) == nfired:
                env.violate('not-retryable' if n else 'op-fails',
                            '%s (%s) without a fault: %s' % (
                                'the repeated store' if n else 'store',
                                self.where(env), describe(res)))
            k.probes['failed store'] += 1
            self.same(env, opid + 'f%d' % n, d['c'], self.seen(env),
                      'memory-changed', 'a failed store')
        else:
            return
        d['stored'] = self.seen(env)
        d['dirty'] = False
        if n:
            k.probes['store retried'] += 1
            self.same(env, opid + 'm', d['c'], d['stored'], 'memory-changed',
                      'a repeated store')
        if n or opid == 'end':
            # look at the database as another process would find it
            k.crash_keep = 0
            k.kill(a.task.proc)
            k.fire('crash:between operations')
            raise SimCrash


SCENARIO = C06()
