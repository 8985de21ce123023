"""C04: stored word counts equal the training history in every backend."""
import pickle

from simkit.kernel import SimCrash
from simkit.sim import Scenario

from . import backends, common
from .backends import BACKENDS, all_words, as_stream, words_of
from .common import Model, describe, diff, observe


class C04(Scenario):
    prop = 'C04'
    quick_runs = 12000
    rule = ('A run is a random history of learn/unlearn/look/store/load/'
            'reopen/copy, process kills between operations and second '
            'readers, on one backend (in memory, with bigrams, pickle with '
            'or without bigrams, CDB, '
            'shelf on one of five dbm behaviours) over a small vocabulary of '
            'text and bytes tokens, compared with a table of counts. '
            'Non-trivial: distinct by the sequence of operations, backend '
            'and vocabulary kinds.')
    assumptions = (
        'Text tokens can be encoded as UTF-8.',
        'Only messages that are trained are untrained.',
        'A shelf is stored before it is reloaded, reopened or killed (what '
        'happens otherwise is C05).')
    stub = Scenario.stub + ('dbm module (four behaviours; the fifth is the '
                            'real dbm.dumb on the simulated disk)',)

    def generate(self, rng):
        cfg = backends.gen_cfg(rng)
        if cfg['backend'] == 'shelf' and rng.random() < 0.1:
            cfg['flag'] = 'n'
        vocab = backends.vocabulary(rng, cfg)
        ops = []
        trained = []
        n = rng.randint(4, rng.choice([10, 25, 50]))
        focus = rng.random() < 0.6
        for i in range(n):
            oid = 'a%d' % i
            r = rng.random()
            if r < 0.42 or not trained:
                m = rng.randrange(6) if rng.random() < 0.985 else -1
                s = rng.random() < (0.8 if focus else 0.5)
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
            elif r < 0.68:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.74:
                ops.append([oid, 'look', [rng.randrange(40) for _ in
                                          range(rng.randint(1, 3))]])
            elif r < 0.78:
                ops.append([oid, 'score', rng.randrange(6)])
            elif r < 0.86:
                ops.append([oid, 'store'])
            elif r < 0.89:
                ops.append([oid, 'load'])
            elif r < 0.95:
                ops.append([oid, 'reopen', rng.choice(['close', 'drop',
                                                       'twin'])])
            elif r < 0.97:
                ops.append([oid, 'kill'])
            else:
                ops.append([oid, rng.choice(['copy', 'reader'])])
            if rng.random() < 0.06:
                # another classifier trains the same database meanwhile
                m, s = rng.randrange(6), rng.random() < 0.7
                trained.append((m, s))
                ops.append(['o%d' % i, 'other', m, s, rng.random() < 0.7])
        if rng.random() < 0.01:
            # a message that comes again and again
            m, s = rng.randrange(6), rng.random() < 0.5
            at = rng.randint(0, len(ops))
            ops[at:at] = [['b%d' % i, 'learn', m, s, rng.randrange(4)]
                          for i in range(rng.choice([70, 140, 270]))] + [
                ['bs', 'store'], ['br', 'reopen', 'close']]
        return {'cfg': cfg, '_profile': False,
                'messages': common.gen_messages(rng, 6, vocab, 4),
                'actors': [{'name': 'A', 'ops': ops}]}

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        d['b'] = BACKENDS[env.cfg['backend']](env)
        d['words'] = all_words(env.plan, d['b'].bigrams)
        d['model'] = Model(bigrams=d['b'].bigrams)
        d['saved'] = d['model'].copy()
        d['dirty'] = False
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))
        env.sigparts.append((sorted(env.cfg.items()), [
            (o[1], o[2] if o[1] in ('learn', 'unlearn', 'reopen') else 0)
            for o in env.plan['actors'][0]['ops']],
            env.plan['messages']))

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s (%s): %s' % (what, self.where(env),
                                                     describe(res)))
        return res[1]

    def where(self, env):
        return '%s%s' % (env.cfg['backend'], '/' + env.cfg['dbm']
                         if 'dbm' in env.cfg else '')

    def open(self, a, opid):
        env = a.env
        d = env.data
        d['c'] = self.ok(env, env.k.call(opid, d['b'].open), 'open')

    def compare(self, env, opid, c, want, what, words=None):
        """Totals and counts of c, as the code reports them."""
        words = env.data['words'] if words is None else words
        got = self.ok(env, env.k.call(opid, observe, c, words),
                      'looking words up')
        m = Model(want)
        ws = set(words)
        m.counts = {w: n for w, n in want.counts.items() if w in ws}
        if got != m:
            env.violate('wrong-counts', '%s (%s): %s' % (
                what, self.where(env), diff(got, m)))

    def totals(self, env, what):
        c, m = env.data['c'], env.data['model']
        if (c.nspam, c.nham) != (m.nspam, m.nham):
            env.violate('wrong-totals', '%s (%s): spam/ham %r/%r, expected '
                        '%d/%d' % (what, self.where(env), c.nspam, c.nham,
                                   m.nspam, m.nham))

    def store(self, a, opid):
        env = a.env
        d = env.data
        self.ok(env, env.k.call(opid, d['b'].store, d['c']), 'store')
        d['saved'] = d['model'].copy()
        d['dirty'] = False

    def settle(self, a, opid):
        """Before going back to what is on disk."""
        d = a.env.data
        if d['b'].live and d['dirty']:
            self.store(a, opid + 's')

    def recover(self, a):
        d = a.env.data
        self.open(a, 'r%d' % a.crashes)
        d['model'] = d['saved'].copy()
        d['dirty'] = False
        self.compare(a.env, 'r%dl' % a.crashes, d['c'], d['model'],
                     'after the process was killed')

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        b = d['b']
        opid, kind = op[0], op[1]
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not d['model'].trained(ws, op[3]):
                return
            fn = {('learn', True): d['c'].learn_spam,
                  ('learn', False): d['c'].learn_ham,
                  ('unlearn', True): d['c'].unlearn_spam,
                  ('unlearn', False): d['c'].unlearn_ham}[kind, op[3]]
            self.ok(env, k.call(opid, fn, as_stream(ws, op[4])), kind)
            d['model'].train(ws, op[3], 1 if kind == 'learn' else -1)
            d['dirty'] = True
            self.totals(env, kind)
        elif kind == 'look':
            ws = [d['words'][n % len(d['words'])] for n in op[2]]
            self.compare(env, opid, d['c'], d['model'], 'live', ws)
        elif kind == 'score':
            self.ok(env, k.call(opid, d['c'].spamprob,
                                words_of(env.plan, op[2])), 'score')
        elif kind == 'store':
            self.store(a, opid)
            self.totals(env, 'store')
        elif kind == 'load':
            if not b.can_load:
                return
            self.settle(a, opid)
            self.ok(env, k.call(opid, b.load, d['c']), 'load')
            d['model'], d['dirty'] = d['saved'].copy(), False
            self.compare(env, opid + 'l', d['c'], d['model'], 'reloaded')
        elif kind == 'other':
            self.other(a, opid, op)
        elif kind == 'reopen':
            self.reopen(a, opid, op[2])
        elif kind == 'kill':
            self.settle(a, opid)
            k.kill(a.task.proc)
            env.k.fire('crash:between operations')
            raise SimCrash
        elif kind == 'copy':
            c2 = self.ok(env, k.call(opid, self.copy, d['c']), 'copy') \
                if b.name in ('memory', 'bigrams', 'pickle', 'bipickle') else None
            if c2 is not None:
                self.same(env, opid, d['c'], c2, 'copy')
        elif kind == 'reader':
            if b.name != 'shelf' or env.cfg['dbm'] == 'gnu':
                return
            self.settle(a, opid)
            if d['saved'] == Model() and d['dirty'] is False and \
                    not env.vfs.tree():
                return
            c2 = self.ok(env, k.call(opid, b.open, 'r'), 'open read-only') \
                if self.exists(env) else None
            if c2 is not None:
                self.same(env, opid, d['c'], c2, 'read-only')
                self.ok(env, k.call(opid + 'c', c2.close), 'close')

    def other(self, a, opid, op):
        """Another classifier trains the same database; this one, closed
        for the time, is loaded again."""
        env = a.env
        d = env.data
        b = d['b']
        k = env.k
        if not b.can_load or b.bigrams:
            return
        self.settle(a, opid)
        if op[4]:
            # what this one knows of the words before
            self.compare(env, opid + 'b', d['c'], d['model'], 'live')
        if not b.live:
            d['model'], d['dirty'] = d['saved'].copy(), False
        self.ok(env, k.call(opid + 'k', b.close, d['c']), 'close')
        c2 = self.ok(env, k.call(opid, b.open), 'open')
        ws = words_of(env.plan, op[2])
        self.ok(env, k.call(opid + 'l', c2.learn, list(ws), op[3]), 'learn')
        self.ok(env, k.call(opid + 's', b.store, c2), 'store')
        self.ok(env, k.call(opid + 'c', b.close, c2), 'close')
        d['model'].train(ws, op[3], 1)
        d['saved'], d['dirty'] = d['model'].copy(), False
        self.ok(env, k.call(opid + 'r', b.load, d['c']), 'load')
        self.compare(env, opid + 'x', d['c'], d['model'],
                     'loaded after another classifier trained')

    @staticmethod
    def copy(c):
        return pickle.loads(pickle.dumps(c))

    def exists(self, env):
        return any(p.startswith(env.data['b'].path)
                   for p in env.vfs.tree())

    def same(self, env, opid, c, c2, what):
        """c2 must be indistinguishable from c: model, scores, training."""
        d = env.data
        self.compare(env, opid + 'x', c2, d['model'], what)
        plan = env.plan
        ms = range(len(plan['messages']))
        one = self.ok(env, env.k.call(opid + 'y', backends.scores, c, plan,
                                      ms), 'score')
        two = self.ok(env, env.k.call(opid + 'z', backends.scores, c2, plan,
                                      ms), 'score')
        if one != two:
            env.violate('wrong-scores', '%s (%s) scores %r, expected %r'
                        % (what, self.where(env), two, one))
        if what == 'copy':
            # training both must have the same effect
            m = d['model'].copy()
            for n, w in (('1', ['alpha', 'beta', 'alpha']),
                         ('2', ['beta', 'alpha'])):
                self.ok(env, env.k.call(opid + 'v' + n, c2.learn, w, True),
                        'learn')
                m.train(w, True)
            ref = self.ok(env, env.k.call(opid + 'w', self.twin, c),
                          'learn')
            probe = [['alpha', 'beta'], ['beta', 'alpha'],
                     ['alpha', 'beta', 'alpha']]
            r = [[self.ok(env, env.k.call(opid + 'u', x.spamprob, p, True),
                          'score') for p in probe] for x in (ref, c2)]
            if r[0] != r[1]:
                env.violate('wrong-training', 'a copy trains differently: '
                            '%r, expected %r' % (r[1], r[0]))

    @staticmethod
    def twin(c):
        """A classifier with the same content, built without copying."""
        from sbclassifier.classifiers.basic import Classifier, WordInfo
        new = Classifier(c._use_bigrams)
        new.nspam, new.nham = c.nspam, c.nham
        for w in c._wordinfokeys():
            r = c._wordinfoget(w)
            new._wordinfoset(w, WordInfo(r.spamcount, r.hamcount))
        for w in (['alpha', 'beta', 'alpha'], ['beta', 'alpha']):
            new.learn(w, True)
        return new

    def reopen(self, a, opid, how):
        env = a.env
        d = env.data
        b = d['b']
        k = env.k
        self.settle(a, opid)
        if how == 'twin':
            # the old one stays open while the new one is compared with it
            if d['dirty'] or (b.name == 'shelf' and
                              env.cfg['dbm'] != 'through'):
                self.store(a, opid + 's')
            if b.name == 'shelf':
                how = 'close'
        old = d['c']
        if how == 'close':
            before = None
            if not d['dirty']:
                before = self.ok(env, k.call(
                    opid + 'b', backends.scores, old, env.plan,
                    range(len(env.plan['messages']))), 'score')
            self.ok(env, k.call(opid + 'k', b.close, old), 'close')
            d['c'] = old = None
            self.open(a, opid)
            if before is not None:
                after = self.ok(env, k.call(
                    opid + 'f', backends.scores, d['c'], env.plan,
                    range(len(env.plan['messages']))), 'score')
                if before != after:
                    env.violate('wrong-scores', 'reopened (%s) scores %r, '
                                'before %r' % (self.where(env), after,
                                               before))
        elif how == 'drop':
            d['c'] = None

            def drop():
                nonlocal old
                old = None
            k.call(opid + 'k', drop)
            self.open(a, opid)
        else:
            self.open(a, opid)
            d['model'] = d['saved'].copy()
            self.same(env, opid, old, d['c'], 'reopened')
        d['model'], d['dirty'] = d['saved'].copy(), False
        self.compare(env, opid + 'l', d['c'], d['model'], 'reopened')


SCENARIO = C04()
