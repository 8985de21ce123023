"""C07: training that fails in its token source changes nothing."""
from simkit.kernel import SimCrash, SimStop
from simkit.sim import Scenario, calls

from . import backends, common
from .backends import BACKENDS, all_words, as_stream, words_of
from .common import Model, describe, diff, observe


class Broken(Exception):
    pass


ERRORS = {'broken': Broken, 'value': ValueError, 'os': OSError,
          'key': KeyError, 'index': IndexError, 'type': TypeError,
          'attribute': AttributeError, 'lookup': LookupError,
          'eof': EOFError, 'memory': MemoryError,
          'interrupt': KeyboardInterrupt, 'exit': SystemExit,
          'genexit': GeneratorExit, 'unicode': None, 'runtime': RuntimeError}


def make_error(name):
    if name == 'unicode':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad byte')
    return ERRORS[name]('the token source failed')


class Iter:
    """An iterator that fails after n tokens."""

    def __init__(self, words, n, error):
        self.words, self.error = list(words), error
        self.n = min(n, len(self.words))
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= self.n:
            raise self.error
        if self.i >= len(self.words):
            raise StopIteration
        self.i += 1
        return self.words[self.i - 1]


def gen(words, n, error):
    for i, w in enumerate(words):
        if i >= n:
            raise error
        yield w
    raise error


class Iterable:
    """Fails on being iterated."""

    def __init__(self, error):
        self.error = error

    def __iter__(self):
        raise self.error


def from_file(path):
    """Tokens read from a file, a small block at a time."""
    with open(path, 'rb', buffering=16) as f:
        for line in f:
            yield line.rstrip(b'\n').decode('latin-1')


FILE = '/data/home/tokens'


class C07(Scenario):
    prop = 'C07'
    quick_runs = 9000
    rule = ('A run is a random history of learn/unlearn/store/reopen/kill on '
            'one backend in which token sources fail after any number of '
            'tokens (one of 15 exceptions, an unhashable token, or a read '
            'error of the file they come from) and in which nothing of the '
            'kind to be untrained was trained; each failed call is repeated '
            'with a working source.')
    assumptions = ('Only messages that are trained are untrained (apart from '
                   'the refused calls).',)

    def generate(self, rng):
        cfg = backends.gen_cfg(rng, ('memory', 'bigrams', 'bigrams',
                                     'pickle', 'bipickle', 'cdb', 'shelf',
                                     'shelf', 'shelf'))
        vocab = backends.vocabulary(rng, cfg)
        ops = []
        trained = []
        n = rng.randint(4, rng.choice([8, 14, 24]))
        for i in range(n):
            oid = 'a%d' % i
            r = rng.random()
            if r < 0.30 or (not trained and r < 0.5):
                m, s = rng.randrange(6), rng.random() < 0.6
                trained.append((m, s))
                ops.append([oid, 'learn', m, s, rng.randrange(4)])
            elif r < 0.40 and trained:
                m, s = trained.pop(rng.randrange(len(trained)))
                ops.append([oid, 'unlearn', m, s, rng.randrange(4)])
            elif r < 0.75:
                what = 'unlearn' if trained and rng.random() < 0.5 else \
                    'learn'
                if what == 'unlearn':
                    m, s = rng.choice(trained)
                else:
                    m, s = rng.randrange(6), rng.random() < 0.5
                form = rng.choice(['gen', 'gen', 'iter', 'iterable',
                                   'unhashable', 'file'])
                again = rng.random() < 0.5
                if again:
                    (trained.remove if what == 'unlearn' else
                     trained.append)((m, s))
                ops.append([oid, 'bad', what, m, s, form, rng.randrange(7),
                            rng.choice(sorted(ERRORS)), again])
            elif r < 0.79:
                ops.append([oid, 'refused', rng.randrange(6),
                            rng.random() < 0.5])
            elif r < 0.80 or (trained and r < 0.82):
                ops.append([oid, 'mistaken', rng.randrange(6),
                            rng.random() < 0.5])
            elif r < 0.90:
                ops.append([oid, 'store'])
            elif r < 0.95:
                ops.append([oid, 'reopen'])
            else:
                ops.append([oid, 'kill'])
        return {'cfg': cfg,
                'messages': common.gen_messages(rng, 6, vocab, 5),
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        own = {op[0]: op for op in plan['actors'][0]['ops']
               if op[1] == 'bad' and op[5] == 'file'}
        for oid in own:
            cs = [c for c in calls(profile, {'read', 'open'})
                  if c[0] == oid and c[3] == FILE]
            if cs:
                op, io, name, path = rng.choice(cs)
                plan['faults'].append({'op': op, 'io': io, 'kind': 'err',
                                       'errno': 'EIO'})

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        env.vfs.sync_all()
        d['b'] = BACKENDS[env.cfg['backend']](env)
        d['words'] = all_words(env.plan, d['b'].bigrams)
        d['model'] = Model(bigrams=d['b'].bigrams)
        d['saved'] = d['model'].copy()
        d['dirty'] = False
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))

    def where(self, env):
        return '%s%s' % (env.cfg['backend'], '/' + env.cfg['dbm']
                         if 'dbm' in env.cfg else '')

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s (%s): %s' % (what, self.where(env),
                                                     describe(res)))
        return res[1]

    def open(self, a, opid):
        env = a.env
        env.data['c'] = self.ok(env, env.k.call(opid, env.data['b'].open),
                                'open')

    def snap(self, env, opid):
        """Everything the classifier reports."""
        d = env.data
        c = d['c']
        k = env.k
        got = self.ok(env, k.call(opid + 'l', observe, c, d['words']),
                      'looking words up')
        sc = [self.ok(env, k.call(opid + 's', c.spamprob,
                                  words_of(env.plan, m), True), 'scoring')
              for m in range(len(env.plan['messages']))]
        return got, sc

    def report(self, env, opid):
        """The same of a classifier that may refuse to score."""
        d = env.data
        got = self.ok(env, env.k.call(opid + 'l', observe, d['c'],
                                      d['words']), 'looking words up')
        sc = [env.k.call(opid + 's', d['c'].spamprob,
                         words_of(env.plan, m), True)
              for m in range(len(env.plan['messages']))]
        return got, [(r[0], r[1] if r[0] == 'ok' else str(r[1]))
                     for r in sc]

    def expected(self, env):
        d = env.data
        m = Model(d['model'])
        m.counts = {w: n for w, n in m.counts.items()
                    if w in set(d['words'])}
        return m

    def check_model(self, env, opid, what):
        got = self.ok(env, env.k.call(opid + 'l', observe, env.data['c'],
                                      env.data['words']), 'looking words up')
        want = self.expected(env)
        if got != want:
            env.violate('changed', '%s (%s): %s' % (what, self.where(env),
                                                    diff(got, want)))

    def recover(self, a):
        d = a.env.data
        opid = 'r%d' % a.crashes
        self.open(a, opid)
        d['model'], d['dirty'] = d['saved'].copy(), False
        self.check_model(a.env, opid, 'after a restart')

    def train(self, a, opid, what, ws, spam, stream):
        env = a.env
        d = env.data
        self.ok(env, env.k.call(opid, getattr(d['c'], what), stream, spam),
                what)
        d['model'].train(ws, spam, 1 if what == 'learn' else -1)
        d['dirty'] = True

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind = op[0], op[1]
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not d['model'].trained(ws, op[3]):
                return
            self.train(a, opid, kind, ws, op[3], as_stream(ws, op[4]))
        elif kind == 'bad':
            self.bad(a, *op)
        elif kind == 'mistaken':
            self.mistaken(a, opid, op[2], op[3])
        elif kind == 'refused':
            self.refused(a, opid, op[2], op[3])
        elif kind == 'store':
            self.store(a, opid)
        elif kind in ('reopen', 'kill'):
            if d['b'].live and d['dirty']:
                self.store(a, opid + 's')
            if kind == 'kill':
                k.kill(a.task.proc)
                k.fire('crash:between operations')
                raise SimCrash
            self.ok(env, k.call(opid + 'c', d['b'].close, d['c']), 'close')
            self.open(a, opid)
            d['model'], d['dirty'] = d['saved'].copy(), False
            self.check_model(env, opid, 'reopened')

    def store(self, a, opid):
        env = a.env
        d = env.data
        self.ok(env, env.k.call(opid, d['b'].store, d['c']), 'store')
        d['saved'], d['dirty'] = d['model'].copy(), False

    def bad(self, a, opid, _bad, what, m, spam, form, n, err, again):
        env = a.env
        d = env.data
        k = env.k
        ws = words_of(env.plan, m)
        if what == 'unlearn' and not d['model'].trained(ws, spam):
            return
        before = self.snap(env, opid + 'b')
        error = make_error(err)
        if form == 'gen':
            stream = gen(ws, n, error)
        elif form == 'iter':
            stream = Iter(ws, n, error)
        elif form == 'iterable':
            stream = Iterable(error)
        elif form == 'unhashable':
            at = n % (len(ws) + 1)
            stream = ws[:at] + [['not', 'a', 'token']] + ws[at:]
        else:
            tokens = [w for w in ws if isinstance(w, str) and '\n' not in w
                      and w.isascii()]
            env.vfs.poke(FILE, ''.join(w + '\n' for w in tokens).encode(
                'latin-1'))
            if what == 'unlearn' and not d['model'].trained(tokens, spam):
                return
            stream, ws = from_file(FILE), tokens
        nfired = sum(k.fired.values())
        res = k.call(opid, getattr(d['c'], what), stream, spam)
        stream = None
        if form == 'file':
            env.vfs.poke_unlink(FILE)
            if sum(k.fired.values()) == nfired:
                self.ok(env, res, what)
                d['model'].train(ws, spam, 1 if what == 'learn' else -1)
                d['dirty'] = True
                return
        elif form != 'unhashable':
            k.fire('token source: ' + type(error).__name__)
        else:
            k.fire('token source: unhashable token')
        if res[0] == 'ok':
            env.violate('swallowed', '%s (%s) returned although its token '
                        'source failed with %r' % (what, self.where(env),
                                                   error))
        if form == 'file':
            good = isinstance(res[1], OSError)
        elif form == 'unhashable':
            good = isinstance(res[1], TypeError)
        else:
            good = res[1] is error
        if not good:
            env.violate('swallowed', '%s (%s) raised %r, the token source '
                        'raised %r' % (what, self.where(env), res[1], error))
        after = self.snap(env, opid + 'a')
        if after[0] != before[0]:
            env.violate('changed', 'a failed %s (%s, %s, %d tokens): %s' % (
                what, self.where(env), form, n, diff(after[0], before[0])))
        if after[1] != before[1]:
            env.violate('changed', 'a failed %s (%s) changed scores: %r, '
                        'before %r' % (what, self.where(env), after[1],
                                       before[1]))
        env.sigparts.append((what, form, n, self.where(env), res[0]))
        if again:
            self.train(a, opid + 'x', what, ws, spam, as_stream(ws, n % 4))
            self.check_model(env, opid + 'x', 'the repeated ' + what)
        elif not d['dirty'] and n % 2:
            # what is on disk?
            k.kill(a.task.proc)
            k.fire('crash:after a failed training')
            raise SimCrash

    def mistaken(self, a, opid, m, spam):
        """Untrain a message that is not trained: what that does is up to
        the classifier, but refused calls change nothing afterwards, too."""
        env = a.env
        d = env.data
        if d['model'].trained(words_of(env.plan, m), spam):
            return
        ws = words_of(env.plan, m)
        for n in range(len(env.plan['messages']) * 4):
            before = self.report(env, '%sb%d' % (opid, n))
            res = env.k.call('%s-%d' % (opid, n), d['c'].unlearn, list(ws),
                             spam)
            if res[0] == 'exc':
                after = self.report(env, opid + 'a')
                if after != before:
                    env.violate('changed', 'a refused unlearn (%s) after a '
                                'mistaken one: %s' % (
                                    self.where(env),
                                    diff(after[0], before[0])))
                break
            # other words may then be counted more often than messages
            ws = words_of(env.plan, (m + n + 1) % len(env.plan['messages']))
        env.k.fire('mistaken unlearn')
        env.sigparts.append(('mistaken', self.where(env)))
        raise SimStop

    def refused(self, a, opid, m, spam):
        env = a.env
        d = env.data
        model = d['model']
        if (model.nspam if spam else model.nham) > 0:
            return
        ws = words_of(env.plan, m)
        before = self.snap(env, opid + 'b')
        res = env.k.call(opid, d['c'].unlearn, list(ws), spam)
        if res[0] == 'ok':
            env.violate('not-refused', 'untraining (%s) with nothing trained '
                        'returned' % self.where(env))
        after = self.snap(env, opid + 'a')
        if after != before:
            env.violate('changed', 'a refused unlearn (%s): %s' % (
                self.where(env), diff(after[0], before[0])))
        env.k.fire('refused unlearn')
        env.sigparts.append(('refused', self.where(env)))


SCENARIO = C07()
