"""C08: scores depend only on the net training, not on its history."""
from simkit import images
from simkit.kernel import SimCrash, SimStop
from simkit.sim import Scenario, calls

from . import backends, common
from .backends import BACKENDS, all_words, as_stream
from .common import Model, describe, diff, observe

MANY = 260


def many_words(i):
    """A long message: more significant words than a score considers."""
    return ['w%03d' % j for j in range(MANY) if (j * 7 + i) % (2 + i % 3)] + \
        [b'w%03d' % j for j in range(40) if (j + i) % 2]


def words_of(plan, m):
    if m < 0:
        return many_words(-m)
    return [common.dec(w) for w in plan['messages'][m]]


class C08(Scenario):
    prop = 'C08'
    quick_runs = 8000
    rule = ('A run is a random history of learn/unlearn/score (tokens as '
            'list, tuple, iterator or generator, with or without evidence), '
            'store/load/reopen, kills between operations and inside '
            'store(), each followed by retraining what was lost, on one '
            'backend; every score is compared bit by bit with that of a '
            'fresh in-memory classifier trained with the surviving messages '
            'in another order.')
    assumptions = (
        'Only messages that are trained are untrained.',
        'A shelf is stored before it is killed or reopened (C05).')

    def generate(self, rng):
        cfg = backends.gen_cfg(rng, ('memory', 'memory', 'bigrams',
                                     'bigrams', 'pickle', 'bipickle',
                                     'cdb', 'shelf', 'shelf'))
        vocab = backends.vocabulary(rng, cfg)
        ops = []
        trained = []
        n = rng.randint(4, rng.choice([10, 20, 35]))
        many = rng.random() < 0.25
        for i in range(n):
            oid = 'a%d' % i
            r = rng.random()
            if many and rng.random() < 0.5:
                m = -rng.randint(1, 5)
            else:
                m = rng.randrange(6)
            if r < 0.32 or not trained:
                s = rng.random() < 0.5
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
            elif r < 0.50:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.58:
                # a mistake, corrected after a while
                s = rng.random() < 0.5
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
                if rng.random() < 0.7:
                    ops.append([oid + 's', 'score', rng.randrange(6),
                                rng.randrange(4), True])
                ops.append([oid + 'u', 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.82:
                ops.append([oid, 'score', m, rng.randrange(4),
                            rng.random() < 0.5])
            elif r < 0.90:
                ops.append([oid, 'store'])
            elif r < 0.93:
                if rng.random() < 0.7:
                    ops.append([oid + 's', 'score', rng.randrange(6),
                                rng.randrange(4), True])
                ops.append([oid, rng.choice(['load', 'load', 'other']),
                            [[rng.randrange(6), rng.random() < 0.5]
                             for _ in range(rng.randint(1, 3))]])
                ops.append([oid + 't', 'score', rng.randrange(6),
                            rng.randrange(4), True])
            elif r < 0.96:
                ops.append([oid, 'reopen'])
            else:
                ops.append([oid, 'kill'])
        if rng.random() < 0.04:
            # a message that comes again and again
            m, s = rng.randrange(6), rng.random() < 0.5
            at = rng.randint(0, len(ops))
            ops[at:at] = [['b%d' % i, 'learn', m, s, rng.randrange(4)]
                          for i in range(rng.choice([20, 70, 140, 300]))]
        if rng.random() < 0.015:
            # a long message that comes again and again: probabilities so
            # small that their plain product would be zero
            s = rng.random() < 0.5
            ops[8:] = [['d%d' % i, 'learn', -1, s, rng.randrange(4)]
                       for i in range(rng.choice([45, 90, 160]))]
        ops.append(['end', rng.choice(['scoreall', 'empty'])])
        return {'cfg': cfg,
                'messages': common.gen_messages(rng, 6, vocab, 5),
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        if plan['cfg']['backend'] == 'shelf' or rng.random() < 0.4:
            return
        stores = {op[0] for op in plan['actors'][0]['ops']
                  if op[1] == 'store'}
        cs = calls(profile, skip_locks=False, ops=stores)
        for _ in range(rng.choice([1, 1, 2])):
            if cs:
                op, io, name, path = rng.choice(cs)
                plan['faults'].append({'op': op, 'io': io, 'kind': 'crash'})

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        d['b'] = BACKENDS[env.cfg['backend']](env)
        d['words'] = all_words(env.plan, d['b'].bigrams) + ['w%03d' % j
                                            for j in range(MANY)] + [
                                                b'w%03d' % j
                                                for j in range(40)]
        d['model'] = Model(bigrams=d['b'].bigrams)
        d['saved'] = [d['model'].copy()]       # what a crash may leave
        d['dirty'] = False
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))
        env.sigparts.append((sorted(env.cfg.items()), env.plan['messages'], [
            o[1:4] for o in env.plan['actors'][0]['ops']]))

    def where(self, env):
        return '%s%s' % (env.cfg['backend'], '/' + env.cfg['dbm']
                         if 'dbm' in env.cfg else '')

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s (%s): %s' % (what, self.where(env),
                                                     describe(res)))
        return res[1]

    def open(self, a, opid):
        env = a.env
        env.data['c'] = self.ok(env, env.k.call(opid, env.data['b'].open),
                                'open')

    def cut(self, env, m):
        n = Model(m)
        ws = set(env.data['words'])
        n.counts = {w: c for w, c in m.counts.items() if w in ws}
        return n

    def recover(self, a):
        env = a.env
        d = env.data
        opid = 'r%d' % a.crashes
        env.vfs.poke_unlink(d['b'].path + '.lock')
        self.open(a, opid)
        want = d['model']
        got = self.ok(env, env.k.call(opid + 'l', observe, d['c'],
                                      d['words']), 'looking words up')
        for m in reversed(d['saved']):
            if got == self.cut(env, m):
                break
        else:
            env.violate('wrong-state', 'after a crash (%s): %s' % (
                self.where(env), diff(got, self.cut(env, d['saved'][-1]))))
        d['saved'] = [m.copy()]
        d['model'] = m.copy()
        # train again what was lost
        lost = want.msgs - m.msgs
        extra = m.msgs - want.msgs
        for n, ((ws, s), count) in enumerate(sorted(lost.items(), key=repr)):
            for i in range(count):
                self.train(a, '%st%d-%d' % (opid, n, i), 'learn', list(ws),
                           s)
        for n, ((ws, s), count) in enumerate(sorted(extra.items(),
                                                    key=repr)):
            for i in range(count):
                self.train(a, '%su%d-%d' % (opid, n, i), 'unlearn',
                           list(ws), s)
        env.k.probes['retrained messages'] += len(lost) + len(extra)

    def train(self, a, opid, what, ws, spam, stream=None):
        env = a.env
        d = env.data
        self.ok(env, env.k.call(opid, getattr(d['c'], what),
                                ws if stream is None else stream, spam),
                what)
        d['model'].train(ws, spam, 1 if what == 'learn' else -1)
        d['dirty'] = True

    def reference(self, env):
        """A fresh classifier with the surviving messages."""
        with images.oracle():
            from sbclassifier.classifiers.basic import Classifier
        d = env.data
        c = Classifier(True) if d['b'].bigrams else Classifier()
        for (ws, spam), n in sorted(d['model'].msgs.items(),
                                    key=lambda x: repr(x[0])):
            for _ in range(n):
                c.learn(list(ws), spam)
        return c

    def score(self, a, opid, ws, form, evidence, ref=None, note=''):
        env = a.env
        d = env.data
        ref = ref or self.reference(env)
        # A message is its set of words (with bigrams: their sequence).
        same = list(ws) if d['b'].bigrams else list(reversed(ws)) + list(ws)
        want = self.ok(env, env.k.call(opid + 'w', ref.spamprob, same,
                                       evidence), 'spamprob, fresh')
        got = self.ok(env, env.k.call(opid, d['c'].spamprob,
                                      as_stream(ws, form), evidence),
                      'spamprob')
        if self.known(got) != self.known(want):
            env.violate('wrong-score', '%s (%s) scores %s, a fresh '
                        'classifier %s %s' % (
                            [w for w in ws[:12]], self.where(env),
                            self.short(got), self.short(want), note))
        env.k.probes['scores compared'] += 1
        if evidence and len(want[1]) >= 150:
            env.k.probes['scores with the most clues'] += 1

    @staticmethod
    def known(x):
        """Clues of the same probability may come in any order."""
        if isinstance(x, tuple) and isinstance(x[1], list):
            x = x[0], sorted(x[1], key=lambda c: (c[1], repr(c[0])))
        return repr(x)

    @staticmethod
    def short(x):
        r = repr(x)
        return r if len(r) < 400 else r[:400] + '...'

    def store(self, a, opid):
        env = a.env
        d = env.data
        d['saved'].append(d['model'].copy())
        self.ok(env, env.k.call(opid, d['b'].store, d['c']), 'store')
        d['saved'], d['dirty'] = [d['model'].copy()], False

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind = op[0], op[1]
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not d['model'].trained(ws, op[3]):
                return
            self.train(a, opid, kind, ws, op[3], as_stream(ws, op[4]))
        elif kind == 'score':
            self.score(a, opid, words_of(env.plan, op[2]), op[3], op[4])
        elif kind == 'store':
            self.store(a, opid)
        elif kind in ('load', 'reopen', 'kill'):
            if kind == 'load':
                self.load(a, opid)
                return
            if d['dirty'] and (d['b'].live or kind != 'kill'):
                self.store(a, opid + 's')
            if kind == 'kill':
                k.kill(a.task.proc)
                k.fire('crash:between operations')
                raise SimCrash
            self.ok(env, k.call(opid + 'c', d['b'].close, d['c']), 'close')
            self.open(a, opid)
        elif kind == 'other':
            self.other(a, opid, op[2])
        elif kind == 'scoreall':
            self.scoreall(a, opid)
        elif kind == 'empty':
            for n, ((ws, s), count) in enumerate(sorted(
                    d['model'].msgs.items(), key=lambda x: repr(x)[::-1])):
                for i in range(count):
                    self.train(a, '%su%d-%d' % (opid, n, i), 'unlearn',
                               list(ws), s)
            got = self.ok(env, k.call(opid + 'l', observe, d['c'],
                                      d['words']), 'looking words up')
            if got != Model():
                env.violate('not-empty', 'everything untrained (%s): %s'
                            % (self.where(env), diff(got, Model())))
            self.scoreall(a, opid)
            k.probes['emptied'] += 1

    def load(self, a, opid):
        """load() goes back to what was stored."""
        env = a.env
        d = env.data
        k = env.k
        if not d['b'].can_load:
            return
        self.ok(env, k.call(opid, d['b'].load, d['c']), 'load')
        if not d['dirty']:
            return
        if not d['b'].live:
            d['model'], d['dirty'] = d['saved'][-1].copy(), False
            return
        # a shelf may have kept some of the changes: it scores like any
        # other classifier that opens it now
        got = [repr(self.ok(env, k.call('%ss%d' % (opid, m), d['c'].spamprob,
                                        words_of(env.plan, m), True),
                            'score'))
               for m in range(len(env.plan['messages']))]
        self.ok(env, k.call(opid + 'c', d['b'].close, d['c']), 'close')
        self.open(a, opid + 'o')
        want = [repr(self.ok(env, k.call('%sf%d' % (opid, m),
                                         d['c'].spamprob,
                                         words_of(env.plan, m), True),
                             'score'))
                for m in range(len(env.plan['messages']))]
        if got != want:
            env.violate('wrong-score', 'after load() (%s) messages score %s, '
                        'when opened anew %s' % (self.where(env), got, want))
        raise SimStop

    def other(self, a, opid, msgs):
        """Another program trains the database; load() shows that."""
        env = a.env
        d = env.data
        k = env.k
        b = d['b']
        if not b.can_load:
            return
        if d['dirty'] or b.live:
            self.store(a, opid + 's')
        if b.live:
            self.ok(env, k.call(opid + 'c', b.close, d['c']), 'close')
        c2 = self.ok(env, k.call(opid + 'o', b.open), 'open')
        for n, (m, s) in enumerate(msgs):
            ws = words_of(env.plan, m)
            self.ok(env, k.call('%st%d' % (opid, n), c2.learn, list(ws), s),
                    'learn')
            d['model'].train(ws, s)
        d['saved'].append(d['model'].copy())
        self.ok(env, k.call(opid + 'w', b.store, c2), 'store')
        d['saved'] = [d['model'].copy()]
        self.ok(env, k.call(opid + 'k', b.close, c2), 'close')
        self.ok(env, k.call(opid, b.load, d['c']), 'load')

    def scoreall(self, a, opid):
        env = a.env
        ref = self.reference(env)
        for m in list(range(len(env.plan['messages']))) + [-1]:
            for ev in (False, True):
                self.score(a, '%s%d%d' % (opid, m, ev),
                           words_of(env.plan, m), m % 4, ev, ref,
                           'at the end')


SCENARIO = C08()
