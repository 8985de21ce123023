"""C18: threads that score at the same time get what one alone gets."""
from simkit import images
from simkit.images import Mod
from simkit.sim import Scenario, calls, dense_preempts

from . import backends, common, corpus
from .backends import BACKENDS
from .common import Model, describe, diff, observe

OPTIONS = ['CHECK_OCTETS', 'X_SHORT_RUNS', 'MINE_RECEIVED_HEADERS',
           'SUMMARIZE_EMAIL_PREFIXES', 'SUMMARIZE_EMAIL_SUFFIXES',
           'REPLACE_NONASCII_CHARS', 'RECORD_HEADER_ABSENCE',
           'COUNT_ALL_HEADER_LINES', 'BASIC_HEADER_TOKENIZE',
           'X_SEARCH_FOR_HABEAS_HEADERS', 'X_REDUCE_HABEAS_HEADERS',
           'IMAGE_SIZE']
URLS = ['http://www.example.com/a/b.html?x=1', 'https://example.org:8080/',
        'ftp://u:p@files.example.net/%41%42', 'http://192.0.2.7/x']
EXTRA = ['<style>p {}</style>', '<!-- hidden -->', '<a href="http://e.f/g">',
         'begin 644 a.txt\n#0V%T\n`\nend\n', 'a\xe9b', 'x' * 40,
         'user@example.com', '100% off!!', '&nbsp;&lt;b&gt;']


class C18(Scenario):
    prop = 'C18'
    quick_runs = 4000
    watchdog = 40.0
    max_steps = 400000
    rule = ('A run lets two to four threads of one process tokenize messages '
            'and score them with one classifier of any backend, with context '
            'switches at random lines of the code, in phases between which '
            'one thread trains, untrains, stores and reopens; every result '
            'is compared with the tokens and the score computed without '
            'threads, and after every phase the classifier with one that has '
            'not been used by anybody.')
    assumptions = (
        'Nobody trains, stores or reloads a classifier while threads score '
        'with it, and it does not follow URLs.',
        'A thread works on messages of its own.',
        'The interpreter switches threads between source lines (not within '
        'one).')
    real = Scenario.real[:1] + ('email', 'pickle', 'shelve', 'CPython '
                                'threads (one at a time, switched at source '
                                'lines)')
    stub = Scenario.stub + ('dbm module (four behaviours; the fifth is the '
                            'real dbm.dumb on the simulated disk)',
                            'thread scheduling')

    def generate(self, rng):
        cfg = backends.gen_cfg(rng, ('memory', 'memory', 'bigrams', 'pickle',
                                     'bipickle', 'cdb', 'shelf', 'shelf',
                                     'shelf'))
        cfg['options'] = sorted(rng.sample(OPTIONS, rng.choice([0, 0, 1, 3])))
        msgs = []
        for n in range(rng.randint(2, 5)):
            m = corpus.gen_message(rng, n, 0.5, 3000)
            if len(m['b']) > 500:
                m['b'] = m['b'][:500]
            if rng.random() < 0.4:
                m['b'] += ' '.join(rng.choice(URLS + EXTRA) for _ in range(
                    rng.randint(1, 3))) + '\n'
            msgs.append(m)
        nphases = rng.choice([1, 1, 2, 3])
        main, trained = [], []
        workers = [[] for _ in range(rng.choice([2, 2, 3, 4]))]
        for p in range(nphases):
            for i in range(rng.randint(1, 4)):
                oid = 'p%d%s' % (p, 'abcdefgh'[i])
                r = rng.random()
                if r < 0.7 or not trained:
                    x = [rng.randrange(len(msgs)), rng.random() < 0.5]
                    trained.append(x)
                    main.append([oid, 'learn'] + x)
                elif r < 0.8:
                    main.append([oid, 'unlearn'] + trained.pop(
                        rng.randrange(len(trained))))
                else:
                    main.append([oid, rng.choice(['store', 'reopen']), 0, 0])
            if rng.random() < 0.4:
                # (what was in memory is read from the database again)
                main.append(['p%dr' % p, 'reopen', 0, 0])
            for t, ops in enumerate(workers):
                for i in range(rng.choice([0, 1, 1, 2])):
                    ops.append(['t%d%d%d' % (t, p, i), p, rng.choice(
                        ['tokens', 'prob', 'prob', 'prob', 'both']),
                        rng.randrange(len(msgs)), rng.random() < 0.6])
            main.append(['p%d' % p, 'par', p, 0])
        return {'cfg': cfg, 'messages': msgs, '_profile': True,
                'actors': [{'name': 'M', 'ops': main}] + [
                    {'name': 'T%d' % t, 'ops': ops}
                    for t, ops in enumerate(workers)]}

    def place(self, rng, plan, profile):
        ids = {op[0] for a in plan['actors'][1:] for op in a['ops']}
        flat = [c for c in calls(profile, skip_locks=False) if c[0] in ids]
        where = rng.choice([('basic', 'storage'), ('basic', 'storage'),
                            ('tokenizer', 'strippers', 'message'), ('',)])
        lines = [c for c in flat if c[2] == 'line' and
                 c[3].startswith(where)]
        for _ in range(rng.choice([1, 2, 4, 8, 16])):
            if lines:
                op, io, name, path = rng.choice(lines)
                plan['preempt'].append([op, io, rng.randrange(4)])
        # Some place in the code: as soon as threads come near it, they go on
        # in small steps.
        if lines and rng.random() < 0.7:
            dense_preempts(rng, plan, lines, reach=rng.choice([0, 5, 20, 50]))
        others = [c for c in flat if c[2] != 'line']
        for _ in range(rng.choice([0, 2, 6]) if others else 0):
            c = rng.choice(others)
            plan['preempt'].append([c[0], c[1], rng.randrange(4)])
        for _ in range(rng.choice([0, 0, 1, 2]) if others else 0):
            c = rng.choice(others)
            plan['faults'].append({'op': c[0], 'io': c[1], 'kind': 'stall',
                                   'sec': rng.choice([0.1, 5])})

    # ------------------------------------------------------------ execution
    tok = Mod('tokenizer')
    basic = Mod('classifiers.basic')

    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()

        def configure():
            for name in env.cfg['options']:
                setattr(self.tok, name, True)
        configure()
        d['tokens'] = []
        for m in env.plan['messages']:
            try:
                d['tokens'].append(('ok', list(self.tok.tokenize(
                    corpus.build(m)))))
            except Exception as e:
                d['tokens'].append(('exc', e))
        for name in env.cfg['options']:
            setattr(self.tok, name, False)
        env.k.on_image.append(configure)
        d['b'] = BACKENDS[env.cfg['backend']](env)
        ws = {w for r, ts in d['tokens'] if r == 'ok'
              for w in (common.expand(ts) if d['b'].bigrams else ts)}
        d['words'] = sorted(ws, key=lambda w: (isinstance(w, bytes), w))
        d['model'] = Model(bigrams=d['b'].bigrams)
        d['released'] = set()
        d['proc'] = env.k.new_proc('P')
        common.Actor(env, env.plan['actors'][0], self.run_main,
                     proc=d['proc'], on_start=self.start)
        for spec in env.plan['actors'][1:]:
            common.Actor(env, spec, self.run_worker, trace=True,
                         proc=d['proc'])
        env.sigparts.append((sorted(env.cfg.items()), [
            [o[1:] for o in a['ops']] for a in env.plan['actors']]))

    def pending(self, env, p):
        return sum(1 for a in env.plan['actors'][1:] for op in a['ops']
                   if op[1] == p)

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        return res[1]

    def start(self, a):
        env = a.env
        env.data['c'] = self.ok(env, env.k.call('start', env.data['b'].open),
                                'opening the database')

    def run_main(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, x, y = op
        b = d['b']
        if kind == 'par':
            d['left'] = self.pending(env, x)
            d['released'].add(x)
            k.unblock('phase')
            while d['left']:
                k.block('done')
            self.after(env, opid)
            return
        if kind in ('learn', 'unlearn'):
            r, ts = d['tokens'][x]
            if r == 'exc':
                return
            if kind == 'unlearn' and not d['model'].trained(ts, y):
                return
            self.ok(env, k.call(opid, getattr(d['c'], kind), list(ts), y),
                    kind)
            d['model'].train(ts, y, 1 if kind == 'learn' else -1)
        elif kind == 'store':
            self.ok(env, k.call(opid, b.store, d['c']), 'store')
        elif kind == 'reopen':
            self.ok(env, k.call(opid, b.store, d['c']), 'store')
            self.ok(env, k.call(opid + 'c', b.close, d['c']), 'close')
            d['c'] = None
            d['c'] = self.ok(env, k.call(opid + 'o', b.open),
                             'opening the database')

    def reference(self, env):
        """A new classifier, trained with the same messages."""
        d = env.data
        with images.oracle():
            from sbclassifier.classifiers.basic import Classifier
        c = Classifier(True) if d['b'].bigrams else Classifier()
        for (ws, s), n in sorted(d['model'].msgs.items(), key=repr):
            for _ in range(n):
                c.learn(list(ws), s)
        return c

    def after(self, env, opid):
        d = env.data
        got = observe(d['c'], d['words'])
        if got != d['model']:
            env.violate('counts', 'after threads have scored (%s): %s'
                        % (opid, diff(got, d['model'])))
        ref = self.reference(env)
        for i, (r, ts) in enumerate(d['tokens']):
            if r == 'exc':
                continue
            res = env.k.call('%sz%d' % (opid, i), d['c'].spamprob, list(ts),
                             True)
            if self.ok(env, res, 'scoring') != ref.spamprob(list(ts), True):
                env.violate('score-after', 'after threads have scored, '
                            'message %d gets %r instead of %r' % (
                                i, res[1], ref.spamprob(list(ts), True)))

    def run_worker(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, p, kind, m, evidence = op
        while p not in d['released']:
            if k.tasks[0].state == 'done':
                return
            k.block('phase')
        if d.get('busy'):
            k.probes['calls at the same time'] += 1
        d['busy'] = d.get('busy', 0) + 1
        r, ts = d['tokens'][m]
        what = '%s of message %d in thread %s' % (kind, m, a.spec['name'])
        if kind == 'tokens':
            msg = corpus.build(env.plan['messages'][m])
            res = k.call(opid, lambda: list(self.tok.tokenize(msg)))
        elif kind == 'both':
            msg = corpus.build(env.plan['messages'][m])
            res = k.call(opid, lambda: d['c'].spamprob(
                self.tok.tokenize(msg), evidence))
        elif r == 'exc':
            res = None
        else:
            res = k.call(opid, d['c'].spamprob, list(ts), evidence)
        if res is not None:
            self.judge(env, kind, res, d['tokens'][m], evidence, what)
        d['busy'] -= 1
        d['left'] -= 1
        if not d['left']:
            k.unblock('done')

    def judge(self, env, kind, res, want, evidence, what):
        if want[0] == 'exc':
            if res[0] != 'exc' or type(res[1]) is not type(want[1]):
                env.violate('tokens', '%s: %s, alone it raises %r'
                            % (what, describe(res), want[1]))
            return
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        if kind == 'tokens':
            if res[1] != want[1]:
                env.violate('tokens', '%s gives %r, alone it gives %r'
                            % (what, res[1], want[1]))
            return
        score = self.reference(env).spamprob(list(want[1]), evidence)
        if res[1] != score:
            env.violate('score', '%s gives %r, alone it gives %r'
                        % (what, res[1], score))


SCENARIO = C18()
