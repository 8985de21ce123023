"""C17: a whole filter, made of several processes, keeps its books."""
import email

from simkit import images
from simkit.kernel import SimCrash, current_task
from simkit.sim import Scenario, calls, dense_preempts, place_preempts

from . import common, corpus
from .common import Model, describe, diff, observe
from .corpus import canon, canon_raw

HOME = '/data/home'
DIRS = {'in': HOME + '/incoming', 'spam': HOME + '/spam', 'ham': HOME + '/ham'}
DB = {'pickle': HOME + '/filter.pck', 'cdb': HOME + '/filter.cdb'}
TO = ['me@example.org', '"A, B" <a@b.c>, d@e.f', 'caf\u00e9 <x@y.z>',
      'a@b.c,\n\td@e.f', '=?utf-8?b?w6k=?= <x@y.z>', '']
NAMES = ('spam', 'ham', 'unsure')
EPS = 0.01


class C17(Scenario):
    prop = 'C17'
    quick_runs = 2500
    max_steps = 250000
    rule = ('A run is a filter of two to four processes over three message '
            'directories and one database: deliveries that score a message, '
            'write the verdict into its headers and file it; a trainer that '
            'sorts the filed messages into the watched spam and ham corpora, '
            'moves mistakes and stores the classifier; and one that expires '
            'the incoming messages. The schedule switches processes at '
            'intercepted calls; in some runs processes are killed and '
            'started again, or calls fail or are slow.')
    assumptions = (
        'There is one trainer (a database has one writer); after it was '
        'killed it trains a new classifier with what is in the corpora.',
        'No arriving message has a subject that begins with a notation, and '
        'the option to notate subjects is not switched on and off.',
        'The known finding about stale lock files is worked around by '
        'removing the lock, as an operator would.')

    def generate(self, rng):
        msgs = []
        for n in range(rng.randint(2, 5)):
            m = corpus.gen_message(rng, n, 0.4)
            m['h'] = [h for h in m['h'] if not h[0].startswith('X-Spam')]
            if rng.random() < 0.7:
                m['h'].append(['To', rng.choice(TO)])
            if rng.random() < 0.1:
                m['h'].append(['To', 'second@example.org'])
            m['spam'] = rng.random() < 0.5
            # headers that somebody put there before
            m['forged'] = [] if rng.random() < 0.7 else rng.sample(
                [['X-Spambayes-Classification', 'ham'],
                 ['X-Spambayes-Spam-Probability', '0.00'],
                 ['X-Spambayes-MailId', 'someone-else'],
                 ['X-Spambayes-Trained', 'spam'],
                 ['X-Spambayes-Level', '***'],
                 ['x-spambayes-evidence', 'none']], rng.randint(1, 3))
            msgs.append(m)
        cfg = {
            'backend': rng.choice(['pickle', 'pickle', 'cdb']),
            'age': rng.choice([None, None, 100, 5000]),
            'size': rng.choice([1, 2, 256]),
            'to': [c for c in NAMES if rng.random() < 0.4],
            'subject': rng.choice([[], [], list(NAMES)]),
            'score': rng.random() < 0.5, 'digits': rng.randint(0, 6),
            'log': rng.random() < 0.5, 'level': rng.random() < 0.4,
            'evidence': rng.random() < 0.4,
            'cutoff': rng.choice([0.5, 0.1]), 'id': rng.random() < 0.7,
            'keep': rng.random() < 0.5}
        if cfg['backend'] == 'pickle':
            cfg['bigrams'] = rng.random() < 0.25
        actors, n = [], 0
        names = ['m%d' % i for i in range(rng.randint(2, 7))]
        nd = rng.choice([1, 1, 2])
        for i in range(nd):
            mine = names[i::nd]
            ops = []
            for key in mine:
                n += 1
                ops.append(['d%d' % n, 'deliver', key,
                            rng.randrange(len(msgs))])
                if rng.random() < 0.6:
                    n += 1
                    ops.append(['d%d' % n, 'wait', '',
                                rng.choice([1, 5, 20, 60])])
            actors.append({'name': 'D%d' % i, 'ops': ops})
        ops = []
        for j in range(rng.randint(2, rng.choice([4, 8, 12]))):
            n += 1
            ops.append(['t%d' % n, rng.choice(
                ['batch', 'batch', 'batch', 'store', 'store', 'move',
                 'forget', 'restart', 'wait', 'wait', 'wait', 'load']),
                rng.choice(names), rng.randint(1, 4)])
            if ops[-1][1] == 'batch' and rng.random() < 0.5:
                n += 1
                ops.append(['t%d' % n, 'store', '', 0])
                n += 1
                ops.append(['t%d' % n, 'wait', '', rng.randint(1, 4)])
        n += 1
        ops += [['t%d' % n, 'batch', '', 9], ['t%d' % (n + 1), 'store', '', 0]]
        actors.append({'name': 'T', 'ops': ops})
        if cfg['age']:
            n += 2
            ops = []
            for j in range(rng.randint(1, 4)):
                n += 1
                ops.append(['e%d' % n, 'wait', '',
                            rng.choice([0.3, 0.6, 1.1]) * cfg['age']])
                n += 1
                ops.append(['e%d' % n, 'expire', '', 0])
            actors.append({'name': 'E', 'ops': ops})
        return {'cfg': cfg, 'messages': msgs, 'actors': actors}

    def place(self, rng, plan, profile):
        profile = {o: c for o, c in profile.items() if o[0] != 'f'}
        cs = calls(profile, skip_locks=False)
        if not cs:
            return
        place_preempts(rng, plan, profile, rng.choice([2, 5, 10, 20, 40]))
        if rng.random() < 0.25:
            dense_preempts(rng, plan, cs, (5, 10, 30))
        r = rng.random()
        if r < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                op, io, name, path = rng.choice(cs)
                f = {'op': op, 'io': io, 'kind': 'crash'}
                if name == 'write':
                    f['torn'] = rng.choice([0, 0.5, 1])
                plan['faults'].append(f)
        elif r < 0.6:
            es = [c for c in calls(profile) if c[2] in (
                'open', 'open-w', 'read', 'write', 'fsync', 'rename',
                'unlink', 'stat', 'listdir')]
            for _ in range(rng.choice([1, 2, 3])):
                if not es:
                    break
                op, io, name, path = rng.choice(es)
                f = {'op': op, 'io': io, 'kind': 'err', 'errno': rng.choice(
                    ['EIO', 'ENOSPC', 'EACCES'])}
                if name == 'write' and rng.random() < 0.5:
                    f = {'op': op, 'io': io, 'kind': 'full',
                         'keep': rng.choice([0, 0.5])}
                plan['faults'].append(f)
        elif r < 0.75:
            op, io, name, path = rng.choice(cs)
            plan['faults'].append({'op': op, 'io': io, 'kind': 'stall',
                                   'sec': rng.choice([0.5, 5, 30, 300])})

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        for p in DIRS.values():
            env.vfs.mkdirs(p)
        env.vfs.sync_all()
        with images.oracle():
            from sbclassifier.tokenizer import tokenize
            d['tokens'] = [list(tokenize(corpus.build(m)))
                           for m in env.plan['messages']]
        big = bool(env.cfg.get('bigrams'))
        d['big'] = big
        words = {w for ts in d['tokens']
                 for w in (common.expand(ts) if big else ts)}
        d['words'] = sorted(words, key=lambda w: (isinstance(w, bytes), w))
        d['handed'] = []          # states handed to store()
        d['done'] = -1            # the last one that returned
        d['model'] = Model(bigrams=big)
        d['where'] = {}           # key -> 'spam' or 'ham', as trained
        d['msg'] = {}             # key -> message number
        d['probs'] = {}           # key -> scores it was filed with
        d['delivered'] = set()
        d['gone'] = set()         # forgotten or expired
        d['files'] = {}           # (dir, key) -> [inode, from, to, by]
        d['ref'] = {}
        d['advanced'] = False
        env.vfs.on_meta = lambda *a: self.changed(env, *a)
        d['nodes'] = {env.vfs._lookup(p): which
                      for which, p in DIRS.items()}
        order = {'D': self.delivery, 'T': self.trainer, 'E': self.expirer}
        for spec in env.plan['actors']:
            run, start, recover = order[spec['name'][0]]()
            common.Actor(env, spec, run, recover,
                         proc=env.k.new_proc(spec['name']), on_start=start)
        env.sigparts.append((sorted(map(repr, env.cfg.items())), [
            [o[1:] for o in a['ops']] for a in env.plan['actors']]))

    def changed(self, env, dnode, name, old, new):
        which = env.data['nodes'].get(dnode)
        if which is None and new is not None and name.endswith('.lock'):
            env.data['locker'] = current_task().proc
        if which is None or not name.startswith('m'):
            return
        t = current_task()
        who = t.op if t else None
        vs = env.data['files'].setdefault((which, name), [])
        if vs and vs[-1][2] is None:
            vs[-1][2], vs[-1][3] = env.k.step, who
            if which == 'in' and new is None and who and who[0] == 'e':
                age = env.k.wall() - vs[-1][0].mtime
                began = env.data.get('expiring', 0)
                if age < env.cfg['age'] - EPS and vs[-1][1] < began:
                    env.violate('too-early', '%s expired %r, which is %.3f s '
                                'old' % (who, name, age))
                env.data['gone'].add(name)
                env.k.probes['expired'] += 1
        if new is not None and not new.isdir():
            vs.append([new, env.k.step, None, None])

    def there(self, env, which, key):
        vs = env.data['files'].get((which, key))
        return bool(vs) and vs[-1][2] is None

    @staticmethod
    def fired(env, *kinds):
        return any(x.split(':')[0] in kinds for x in env.k.fired)

    # -- calls that may fail because of a fault
    def tried(self, a, opid, fn, *args, ok=(), what=''):
        """Call; if an injected fault made it fail, once more."""
        env, k = a.env, a.env.k
        d = env.data
        for n in range(6):
            res = k.call(opid + 'abcdef'[n], fn, *args)
            if res[0] == 'ok' or isinstance(res[1], ok):
                return res
            e = res[1]
            name = opid + 'abcdef'[n]
            if type(e).__name__ == 'LockTimeout':
                lock = DB[env.cfg['backend']] + '.lock'
                if self.fired(env, 'crash') and \
                        env.vfs.peek_stat(lock) is not None and \
                        not d['locker'].alive:
                    env.finding('stale-lock', '%s: %s' % (what, describe(res)))
                    k.probes['stale lock removed'] += 1
                    env.vfs.poke_unlink(lock)
                    continue
                if self.fired(env, 'stall', 'crash') or d['advanced']:
                    k.probes['lock time-outs'] += 1
                    k.call(name + 'w', k.sleep, 100)
                    continue
            if not isinstance(e, OSError) or not any(
                    p[0] == name for p in k.fault_points):
                env.violate('op-fails', '%s: %s' % (what or opid,
                                                    describe(res)))
            k.probes['failed and tried again'] += 1
        env.violate('op-fails', '%s fails again and again: %s'
                    % (what or opid, describe(res)))

    def database(self, a, opid, fn, *args, what=''):
        """An operation on the database; gives (result, states that a
        reader may see)."""
        env = a.env
        d = env.data
        lo = d['done']
        res = self.tried(a, opid, fn, *args, what=what)
        hi = len(d['handed']) - 1
        return res, range(lo, hi + 1)

    def which(self, a, c, legal, what):
        """The stored state that a classifier just read is in."""
        env = a.env
        d = env.data
        res = env.k.call('%s-look' % what.replace(' ', ''), observe, c,
                         d['words'])
        if res[0] == 'exc':
            env.violate('op-fails', '%s: looking words up: %s'
                        % (what, describe(res)))
        got = res[1]
        for i in reversed(legal):
            want = d['handed'][i] if i >= 0 else Model(bigrams=d['big'])
            if got == want:
                return want
        env.violate('wrong-state', '%s has %r, the database had %s' % (
            what, got, [d['handed'][i] if i >= 0 else 'nothing'
                        for i in legal]))

    def open_db(self, env):
        from sbclassifier.classifiers.basic import Classifier
        from sbclassifier.classifiers import storage
        cls = {'pickle': storage.PickleClassifier,
               'cdb': storage.CDBClassifier}[env.cfg['backend']]
        c = cls(DB[env.cfg['backend']])
        if env.data['big'] and (c.nspam, c.nham) == (0, 0):
            Classifier.__init__(c, True)
        return c

    def reference(self, env, model, m):
        """Score and evidence of a message by a stored state."""
        key = model.key(), m
        d = env.data
        if key not in d['ref']:
            with images.oracle():
                from sbclassifier.classifiers.basic import Classifier
                c = Classifier(d['big'])
                for (ws, spam), n in model.msgs.items():
                    for _ in range(n):
                        c.learn(list(ws), spam)
                d['ref'][key] = c.spamprob(list(d['tokens'][m]),
                                           evidence=True)
        return d['ref'][key]

    # -- deliveries: score, mark, file
    def delivery(self):
        return self.run_delivery, self.start_delivery, self.recover_delivery

    def start_delivery(self, a):
        from sbclassifier.corpora.filesystem import FileCorpus
        env = a.env
        opid = '%so%d' % (a.spec['name'], a.crashes)
        a.pending = getattr(a, 'pending', None)
        a.c = None
        a.c, a.state = self.open_checked(a, opid)
        res = self.tried(a, opid + 'C', lambda: FileCorpus(
            DIRS['in'], cache_size=env.cfg['size']), what='opening a corpus')
        a.inbox = res[1]

    def open_checked(self, a, opid):
        res, legal = self.database(a, opid, self.open_db, a.env,
                                   what='opening the database')
        what = '%s classifier' % opid
        return res[1], self.which(a, res[1], legal, what)

    def recover_delivery(self, a):
        self.start_delivery(a)
        if a.pending:
            # what was not delivered comes again
            op, a.pending = a.pending, None
            n = a.crashes
            a.env.k.probes['delivered again'] += 1
            self.run_delivery(a, ['%sR%d' % (op[0], n)] + op[1:])

    def run_delivery(self, a, op):
        env, k = a.env, a.env.k
        d = env.data
        opid, kind, key, m = op
        if kind == 'wait':
            k.call(opid, k.sleep, m)
            return
        a.pending = [opid.split('R')[0]] + op[1:]
        if key in d['msg'] and d['msg'][key] != m:
            raise AssertionError(key)
        d['msg'][key] = m
        if not env.cfg['keep']:
            a.c, a.state = self.open_checked(a, opid + 'o')
        elif k.step % 3 == 0:
            res, legal = self.database(a, opid + 'l', a.c.load,
                                       what='load()')
            a.state = self.which(a, a.c, legal, opid + 'l classifier')
        spec = dict(env.plan['messages'][m])
        spec['h'] = spec['forged'] + spec['h']

        def score():
            from sbclassifier.tokenizer import tokenize
            msg = corpus.build(spec, key)
            msg.remove_sb_headers()
            toks = list(tokenize(msg))
            return msg, toks, a.c.spamprob(iter(toks), evidence=True)
        res = k.call(opid + 's', score)
        if res[0] == 'exc':
            env.violate('op-fails', 'scoring %r: %s' % (key, describe(res)))
        msg, toks, (prob, clues) = res[1]
        if toks != d['tokens'][m]:
            env.violate('tokens', 'an arriving message has other tokens than '
                        'without the headers of other filters: %.300r'
                        % (sorted(set(toks) ^ set(d['tokens'][m]), key=repr)))
        want = self.reference(env, a.state, m)
        if (prob, clues) != want:
            env.violate('score', '%s scores %r %.300r, with the stored '
                        'training it is %.300r' % (opid, prob, clues, want))
        cfg = env.cfg

        def mark():
            from sbclassifier.message import Classification
            msg.add_sb_headers(
                prob, clues, include_thermostat=cfg['level'],
                include_score=cfg['score'],
                header_score_digits=cfg['digits'],
                header_score_logarithm=cfg['log'],
                include_evidence=cfg['evidence'],
                clue_mailheader_cutoff=cfg['cutoff'],
                add_unique_id=cfg['id'],
                notate_to=tuple(Classification[c] for c in cfg['to']),
                notate_subject=tuple(Classification[c]
                                     for c in cfg['subject']))
        res = k.call(opid + 'h', mark)
        if res[0] == 'exc':
            env.violate('op-fails', 'adding the headers: ' + describe(res))
        d['probs'].setdefault(key, []).append(prob)
        self.tried(a, opid + 'f', a.inbox.add_message, msg, what='filing %r'
                   % key)
        d['delivered'].add(key)
        a.pending = None
        k.probes['delivered'] += 1
        k.probes['scored by training'] += bool(a.state.nspam and
                                               a.state.nham)

    # -- the trainer
    def trainer(self):
        return self.run_trainer, self.start_trainer, self.recover_trainer

    def open_corpora(self, a, opid):
        from sbclassifier.corpora.filesystem import FileCorpus
        env = a.env
        a.corpora = {}
        for which in ('in', 'spam', 'ham'):
            res = self.tried(a, '%s%s' % (opid, which), lambda: FileCorpus(
                DIRS[which], cache_size=env.cfg['size']),
                what='opening a corpus')
            a.corpora[which] = res[1]

    def watch(self, a, opid):
        from sbclassifier.trainers import HamTrainer, SpamTrainer
        a.trainers = []
        for which, cls in (('spam', SpamTrainer), ('ham', HamTrainer)):
            res = self.tried(a, '%sw%s' % (opid, which), lambda: cls(
                a.c, [a.corpora[which]]), what='making a trainer')
            a.trainers.append(res[1])

    def start_trainer(self, a):
        opid = 'To%d' % a.crashes
        a.c, state = self.open_checked(a, opid)
        a.env.data['model'] = state.copy()
        self.open_corpora(a, opid)
        self.watch(a, opid)

    def recover_trainer(self, a):
        a.trainers, a.corpora, a.c = [], {}, None
        opid = 'Tr%d' % a.crashes
        self.rebuild(a, opid)

    def rebuild(self, a, opid):
        """Train a new classifier with what is in the corpora."""
        env, k = a.env, a.env.k
        d = env.data
        a.c, state = self.open_checked(a, opid)
        self.open_corpora(a, opid)
        for key in sorted(d['msg']):
            if self.there(env, 'spam', key) and self.there(env, 'ham', key):
                # killed while moving it
                which = 'ham' if d['where'].get(key) == 'spam' else 'spam'
                self.remove(a, '%sx%s' % (opid, key), which, key)

        def train():
            from sbclassifier.classifiers.basic import Classifier
            from sbclassifier.tokenizer import tokenize
            Classifier.__init__(a.c, d['big'])
            for which in ('spam', 'ham'):
                for key, msg in a.corpora[which].items():
                    msg.remove_sb_headers()
                    a.c.learn(tokenize(msg), which == 'spam')
        self.tried(a, opid + 't', train, what='training the corpora again')
        model = Model(bigrams=d['big'])
        d['where'] = {}
        for key, m in sorted(d['msg'].items()):
            for which in ('spam', 'ham'):
                if self.there(env, which, key):
                    model.train(d['tokens'][m], which == 'spam')
                    d['where'][key] = which
        d['model'] = model
        self.compare(a, opid, 'training the corpora again')
        self.watch(a, opid)
        self.store(a, opid + 's')
        k.probes['rebuilt'] += 1

    def store(self, a, opid):
        d = a.env.data
        d['handed'].append(d['model'].copy())
        n = len(d['handed']) - 1
        self.database(a, opid, a.c.store, what='store()')
        d['done'] = n

    def compare(self, a, opid, what):
        env = a.env
        d = env.data
        res = env.k.call(opid + 'v', observe, a.c, d['words'])
        if res[0] == 'exc':
            env.violate('op-fails', 'looking words up: ' + describe(res))
        if res[1] != d['model']:
            env.violate('differs', 'after %s the classifier differs from '
                        'the messages trained: %s' % (
                            what, diff(res[1], d['model'])))

    def get(self, a, opid, which, key):
        """Look a message up and compare it with what arrived."""
        env = a.env
        d = env.data
        before = self.there(env, which, key)
        res = self.tried(a, opid, a.corpora[which].get, key,
                         what='looking %r up' % key)
        msg = res[1]
        if msg is None:
            if before and self.there(env, which, key) and \
                    len(d['files'][which, key]) == 1:
                env.violate('not-found', '%s: %r is not found in %s, where '
                            'its file is' % (opid, key, which))
            return None
        if msg.id() != key:
            env.violate('wrong-id', '%s: the message of %r has id %r' % (
                opid, key, msg.id()))
        self.judge(env, opid, which, key, msg)
        return msg

    def judge(self, env, opid, which, key, msg):
        """A filed message is what arrived, and says its verdict."""
        d = env.data
        m = d['msg'][key]

        def strip():
            heads = msg.current_sb_headers()
            msg.remove_sb_headers()
            return heads
        res = env.k.call(opid + 'j', strip)
        if res[0] == 'exc':
            env.violate('op-fails', 'removing the headers of %r: %s'
                        % (key, describe(res)))
        heads = res[1]
        spec = env.plan['messages'][m]
        if canon(msg) != canon_raw(spec):
            env.violate('content', '%s: %r in %s is, without the headers of '
                        'the filter, %.400r; it arrived as %.400r' % (
                            opid, key, which, canon(msg), canon_raw(spec)))
        if heads:
            said = heads.get('X-Spambayes-Classification')
            legal = {verdict(p) for p in d['probs'].get(key, ())}
            if said not in legal:
                env.violate('verdict', '%s: %r is filed as %r, its scores '
                            'are %s' % (opid, key, said, d['probs'].get(key)))
            if env.cfg['id'] and heads.get('X-Spambayes-MailId') != key:
                env.violate('verdict', '%s: %r is filed with id %r' % (
                    opid, key, heads.get('X-Spambayes-MailId')))
        elif which == 'in' and not getattr(msg, '_seen', False):
            env.violate('verdict', '%s: %r is filed without verdict'
                        % (opid, key))
        msg._seen = True

    def remove(self, a, opid, which, key, silent=False):
        """Remove a message; it may have been expired meanwhile."""
        env = a.env
        msg = self.get(a, opid + 'g', which, key)
        if msg is None:
            return False
        self.tried(a, opid, a.corpora[which].remove_message, msg,
                   ok=KeyError if which == 'in' else (),
                   what='removing %r from %s' % (key, which))
        if which != 'in' and self.there(env, which, key):
            env.violate('not-removed', '%s: %r is still in %s'
                        % (opid, key, which))
        return True

    def run_trainer(self, a, op):
        env, k = a.env, a.env.k
        d = env.data
        opid, kind, key, n = op
        if kind == 'wait':
            k.call(opid, k.sleep, [0.1, 2, 10, 30][n - 1])
        elif kind == 'batch':
            res = self.tried(a, opid + 'k', lambda: list(
                a.corpora['in'].keys()), what='keys()')
            for i, key in enumerate(sorted(res[1])[:n]):
                self.sort(a, '%s-%d' % (opid, i), key)
        elif kind == 'store':
            self.store(a, opid)
        elif kind == 'load':
            # forget what was not stored: the corpora have it
            self.database(a, opid, a.c.load, what='load()')
            a.trainers = []
            self.rebuild(a, opid + 'r')
        elif kind in ('move', 'forget'):
            src = d['where'].get(key)
            if src is None:
                return
            if kind == 'move':
                dst = 'ham' if src == 'spam' else 'spam'
                msg = self.get(a, opid + 'q', src, key)
                self.add(a, opid + 'm', dst, key, msg)
            self.take(a, opid, src, key)
            if kind == 'move':
                d['where'][key] = dst
            else:
                d['gone'].add(key)
                d['where'].pop(key)
        elif kind == 'restart':
            self.store(a, opid + 's')
            a.trainers, a.corpora, a.c = [], {}, None
            k.kill(a.task.proc)
            a.task.proc = k.new_proc('T-' + opid)
            a.c, state = self.open_checked(a, opid)
            if state != d['handed'][d['done']]:
                env.violate('wrong-state', 'after a restart')
            self.open_corpora(a, opid)
            self.watch(a, opid)
            k.fire('restart')
        self.compare(a, opid, '%s %s' % (opid, kind))

    def add(self, a, opid, which, key, msg):
        env = a.env
        d = env.data
        m = d['msg'][key]
        self.tried(a, opid, a.corpora[which].add_message, msg,
                   what='adding %r to %s' % (key, which))
        d['model'].train(d['tokens'][m], which == 'spam')
        env.k.probes['trained'] += 1
        if msg.is_trained() is not (which == 'spam'):
            env.violate('training-state', '%s: is_trained() is %r' % (
                opid, msg.is_trained()))

    def take(self, a, opid, which, key):
        d = a.env.data
        if not self.remove(a, opid, which, key):
            a.env.violate('not-found', '%s: %r is not found in %s' % (
                opid, key, which))
        d['model'].train(d['tokens'][d['msg'][key]], which == 'spam', -1)
        a.env.k.probes['untrained'] += 1

    def sort(self, a, opid, key):
        """Train an incoming message by what its reader says."""
        env = a.env
        d = env.data
        msg = self.get(a, opid + 'q', 'in', key)
        if msg is None:
            return
        if key not in d['where']:
            which = 'spam' if env.plan['messages'][d['msg'][key]]['spam'] \
                else 'ham'
            self.add(a, opid + 'a', which, key, msg)
            d['where'][key] = which
        self.tried(a, opid + 'r', a.corpora['in'].remove_message, msg,
                   ok=KeyError, what='removing %r' % key)

    # -- expiry
    def expirer(self):
        return self.run_expirer, self.start_expirer, self.start_expirer

    def start_expirer(self, a):
        from sbclassifier.corpora.filesystem import ExpiryFileCorpus
        env = a.env
        res = self.tried(a, 'Eo%d' % a.crashes, lambda: ExpiryFileCorpus(
            env.cfg['age'], DIRS['in'], cache_size=env.cfg['size']),
            what='opening a corpus')
        a.c = res[1]

    def run_expirer(self, a, op):
        env, k = a.env, a.env.k
        opid, kind, key, sec = op
        if kind == 'wait':
            k.now += sec
            env.data['advanced'] = True
            k.wake_sleepers()
            return
        env.data['expiring'] = k.step
        self.tried(a, opid, a.c.remove_expired_messages, what='expiry')

    # ------------------------------------------------------------ the end
    def check(self, env):
        t = env.k.spawn('final', lambda t: self.final(env, t))
        env.k.tasks = [t]
        env.k.main_sem.acquire(False)
        env.k.run()
        if env.k.violation is not None:
            raise env.k.violation

    def final(self, env, t):
        d = env.data
        k = env.k
        a = common.Actor.__new__(common.Actor)
        a.env, a.crashes, a.spec = env, 99, {'name': 'final'}
        lost = [key for key in sorted(d['delivered']) if not any(
            self.there(env, w, key) for w in DIRS) and key not in d['gone']]
        if lost:
            env.violate('lost', 'delivered, not expired, and in no '
                        'directory: %s' % lost)
        for which in ('spam', 'ham'):
            files = sorted(key for key in d['msg']
                           if self.there(env, which, key))
            want = sorted(x for x, w in d['where'].items() if w == which)
            if files != want:
                env.violate('misplaced', 'in %s are %s, trained as such %s'
                            % (which, files, want))
        self.open_corpora(a, 'final')
        for which in DIRS:
            for key in sorted(d['msg']):
                if self.there(env, which, key):
                    if self.get(a, 'f%s%s' % (which, key), which,
                                key) is None:
                        env.violate('not-found', 'in the end %r is not found '
                                    'in %s' % (key, which))
        c, state = self.open_checked(a, 'finaldb')
        if state != d['handed'][d['done']] if d['done'] >= 0 else \
                state.nspam or state.nham:
            env.violate('wrong-state', 'in the end the database has %r, '
                        'stored was %r' % (state, d['handed'][d['done']]))
        if not self.fired(env, 'crash', 'err', 'full'):
            left = sorted(
                p for p in env.vfs.tree() if p != DB[env.cfg['backend']]
                and p not in DIRS.values() and p != HOME and not any(
                    p.startswith(x + '/m') for x in DIRS.values()))
            if left:
                env.violate('left-behind', 'when all have finished: %s'
                            % left)


def verdict(prob):
    with images.oracle():
        from sbclassifier.classifiers.constants import (HAM_CUTOFF,
                                                        SPAM_CUTOFF)
    return ('ham' if prob < HAM_CUTOFF else
            'spam' if prob > SPAM_CUTOFF else 'unsure')


SCENARIO = C17()
