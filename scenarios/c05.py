"""C05: a crash between shelf operations leaves a usable, sound database."""
from simkit.kernel import SimCrash
from simkit.sim import Scenario, calls

from . import backends, common
from .backends import Shelf, all_words, as_stream, words_of
from .common import Model, describe, diff, observe


class C05(Scenario):
    prop = 'C05'
    quick_runs = 9000
    rule = ('A run is a random history of learn/unlearn/score/store/load/'
            'close-and-reopen (with or without store) on a shelf classifier '
            'over one of four dbm behaviours, killed one to three times '
            'inside database calls or between operations, the disk keeping '
            'any prefix of the unsynced updates; before that, calls of the '
            'database may have failed.')
    assumptions = (
        'After a process crash the database file holds the synced updates '
        'and a prefix of the later ones (the dbm module itself is crash-'
        'safe); dbm.dumb, which is not, is left out.',
        'Only messages trained since the last crash are untrained.')
    stub = Scenario.stub + ('dbm module (write-through, write-back, without '
                            'sync, exclusive)',)

    def generate(self, rng):
        cfg = {'backend': 'shelf',
               'dbm': rng.choice(['through', 'back', 'nosync', 'gnu'])}
        vocab = backends.vocabulary(rng, cfg)
        ops = []
        trained = []
        n = rng.randint(4, rng.choice([8, 16, 30]))
        for i in range(n):
            oid = 'a%d' % i
            r = rng.random()
            if r < 0.45 or not trained:
                m, s = rng.randrange(6), rng.random() < 0.6
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
            elif r < 0.66:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.72:
                ops.append([oid, 'score', rng.randrange(6)])
            elif r < 0.88:
                ops.append([oid, 'store'])
            elif r < 0.91:
                ops.append([oid, 'load', rng.random() < 0.6])
            elif r < 0.96:
                ops.append([oid, 'close'])
            else:
                ops.append([oid, 'kill', rng.choice([0, 0.3, 0.7, 1])])
        return {'cfg': cfg,
                'messages': common.gen_messages(rng, 6, vocab, 4),
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        own = {op[0]: op[1] for op in plan['actors'][0]['ops']}
        cs = [c for c in calls(profile) if c[0] in own and c[2][:3] == 'db-']
        stores = [c for c in cs if own[c[0]] == 'store']
        writes = [c for c in cs if c[2] in ('db-set', 'db-del')]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            pool = (stores if r < 0.5 else writes if r < 0.85 else cs) or cs
            if not pool:
                return
            op, io, name, path = rng.choice(pool)
            plan['faults'].append({'op': op, 'io': io, 'kind': 'crash',
                                   'keep': rng.choice([0, 0.2, 0.4, 0.6,
                                                       0.8, 1, 1])})
        # Something has gone wrong before.
        earlier = [c for c in cs if own[c[0]] in ('learn', 'unlearn',
                                                  'store', 'score')]
        if earlier and rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                pool = [c for c in earlier if c in writes]
                op, io, name, path = rng.choice(
                    pool if pool and rng.random() < 0.8 else earlier)
                f = {'op': op, 'io': io, 'kind': 'err', 'errno': 'EIO'}
                if name in ('db-set', 'db-del') and rng.random() < 0.2:
                    f['applied'] = True
                plan['faults'].append(f)

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        d['b'] = Shelf(env)
        d['words'] = all_words(env.plan)
        d['stored'] = Model()        # at the last completed store
        d['model'] = Model()
        d['dirty'] = False           # trained since the last completed store
        self.reset(env)
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))

    def reset(self, env):
        """A store has completed: only the present values are possible."""
        d = env.data
        m = d['model']
        d['nspam'], d['nham'] = {m.nspam}, {m.nham}
        d['counts'] = {w: {m.counts.get(w, (0, 0))} for w in d['words']}

    def possible(self, env, m):
        d = env.data
        d['nspam'].add(m.nspam)
        d['nham'].add(m.nham)
        for w in d['words']:
            d['counts'][w].add(m.counts.get(w, (0, 0)))

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s (%s): %s' % (what, env.cfg['dbm'],
                                                     describe(res)))
        return res[1]

    def tried(self, env, opid, what, fn, *args):
        """Whether a call succeeds, which may meet a database error."""
        n = len(env.k.fault_points)
        res = env.k.call(opid, fn, *args)
        if res[0] == 'exc' and len(env.k.fault_points) > n:
            env.k.probes['failed ' + what] += 1
            return False
        self.ok(env, res, what)
        return True

    def open(self, a, opid):
        env = a.env
        env.data['c'] = self.ok(env, env.k.call(opid, env.data['b'].open),
                                'open')

    def check_reopened(self, a, opid, what):
        env = a.env
        d = env.data
        what = '%s (%s)' % (what, env.cfg['dbm'])
        c = d['c']
        got = self.ok(env, env.k.call(opid + 'l', observe, c, d['words']),
                      'looking words up after ' + what)
        # every word can be scored, each on its own, and every message
        tests = [[w] for w in d['words']] + [
            words_of(env.plan, m) for m in range(len(env.plan['messages']))]
        for ws in tests:
            res = env.k.call(opid + 's', c.spamprob, ws)
            if res[0] == 'exc':
                env.violate('unsound', 'after %s, scoring %r: %s'
                            % (what, ws, describe(res)))
        for w, (s, h) in got.counts.items():
            if s > got.nspam or h > got.nham or \
                    s < 0 or h < 0:
                env.violate('unsound', 'after %s, %r has counts %d/%d, the '
                            'totals are %d/%d' % (what, w, s, h, got.nspam,
                                                  got.nham))
        if not d['dirty']:
            if got != self.seen(env, d['stored']):
                env.violate('stored-state-lost', 'nothing was trained since '
                            'the last store; after %s: %s'
                            % (what, diff(got, self.seen(env,
                                                         d['stored']))))
            env.k.probes['clean reopen'] += 1
        else:
            if got.nspam not in d['nspam'] or got.nham not in d['nham']:
                env.violate('wrong-totals', 'after %s the totals are %d/%d; '
                            'since the last store they were in %s/%s'
                            % (what, got.nspam, got.nham,
                               sorted(d['nspam']), sorted(d['nham'])))
            for w in d['words']:
                n = got.counts.get(w, (0, 0))
                if n not in d['counts'][w]:
                    env.violate('wrong-counts', 'after %s, %r has counts %s; '
                                'since the last store it had %s'
                                % (what, w, n, sorted(d['counts'][w])))
            env.k.probes['dirty reopen'] += 1
        new = Model()
        new.nspam, new.nham, new.counts = got.nspam, got.nham, got.counts
        if not d['dirty']:
            new.msgs = d['stored'].msgs.copy()
        d['model'] = new
        env.sigparts.append((what, d['dirty']))

    def seen(self, env, m):
        n = Model(m)
        n.counts = {w: c for w, c in m.counts.items()
                    if w in set(env.data['words'])}
        return n

    def recover(self, a):
        opid = 'r%d' % a.crashes
        self.open(a, opid)
        self.check_reopened(a, opid, 'a crash')

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind = op[0], op[1]
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not d['model'].trained(ws, op[3]):
                return
            new = d['model'].copy()
            new.train(ws, op[3], 1 if kind == 'learn' else -1)
            d['dirty'] = True
            self.possible(env, new)
            if self.tried(env, opid, kind, getattr(d['c'], kind),
                          as_stream(ws, op[4]), op[3]):
                d['model'] = new
                return
            # part of the message may have been trained
            got = self.ok(env, k.call(opid + 'l', observe, d['c'],
                                      d['words']),
                          'looking words up after a failed ' + kind)
            got.msgs = (new if kind == 'unlearn' else d['model']).msgs.copy()
            d['model'] = got
            self.possible(env, got)
        elif kind == 'score':
            self.tried(env, opid, kind, d['c'].spamprob,
                       words_of(env.plan, op[2]))
        elif kind == 'store':
            if not self.tried(env, opid, kind, d['c'].store):
                return
            d['stored'] = d['model'].copy()
            d['dirty'] = False
            self.reset(env)
        elif kind == 'load':
            self.ok(env, k.call(opid, d['c'].load), 'load')
            self.check_reopened(a, opid, 'load()')
            if op[2]:
                # opening it again shows the same
                before = d['model']
                self.ok(env, k.call(opid + 'c', d['c'].close), 'close')
                self.open(a, opid + 'o')
                got = self.ok(env, k.call(opid + 'm', observe, d['c'],
                                          d['words']), 'looking words up')
                if got != before:
                    env.violate('reload-differs', 'load() (%s) shows another '
                                'database than opening it again: %s'
                                % (env.cfg['dbm'], diff(before, got)))
        elif kind == 'close':
            self.ok(env, k.call(opid, d['c'].close), 'close')
            self.open(a, opid + 'o')
            self.check_reopened(a, opid, 'close() without store()')
        elif kind == 'kill':
            k.crash_keep = op[2]
            k.kill(a.task.proc)
            k.fire('crash:between operations')
            raise SimCrash


SCENARIO = C05()
