"""C12: trainers keep the classifier equal to the corpora they watch."""
import gc

from simkit import images
from simkit.kernel import SimCrash
from simkit.sim import Scenario, calls

from . import backends, common, corpus
from .backends import BACKENDS
from .common import Model, describe, diff, observe
from .corpus import canon, canon_raw, matches

NAMES = ['m1', 'm2', 'm3', 'a b', 'x.eml', '10', 'caf\u00e9']
DB = {'db-get', 'db-set', 'db-del', 'db-has', 'db-sync', 'db-open'}


class Broken(Exception):
    pass


class C12(Scenario):
    prop = 'C12'
    quick_runs = 7000
    rule = ('A run is a random history of adding, moving and removing '
            'messages (some silently, some that cannot be tokenized to the '
            'end) over two to four corpora in memory and on disk, watched '
            'by trainers of one or two classifiers or by none, with '
            'restarts, and (in some runs) failing file-system or database '
            'calls; after every operation each classifier is compared with '
            'the messages trained by then.')
    assumptions = (
        'Adding an id that is in the corpus already is not covered (it '
        'trains the new message without untraining the old one).',
        'A message that was added without a signal is removed without one.',
        'Messages made from str hold ASCII only, as the email package '
        'requires.')
    stub = Scenario.stub + ('dbm module (four behaviours; the fifth is the '
                            'real dbm.dumb on the simulated disk)',)

    def generate(self, rng):
        ncl = rng.choice([1, 1, 1, 2])
        cls = []
        for _ in range(ncl):
            cls.append(backends.gen_cfg(rng, ('memory', 'memory', 'bigrams',
                                              'bigrams', 'pickle',
                                              'bipickle', 'shelf',
                                              'shelf', 'shelf')))
        shelves = [c for c in cls if c['backend'] == 'shelf']
        for c in shelves[1:]:
            c['dbm'] = shelves[0]['dbm']
        corpora = []
        for i in range(rng.choice([2, 2, 3, 4])):
            corpora.append({
                'kind': rng.choice(['mem', 'file', 'file']),
                'size': rng.choice([1, 2, 256]),
                'filter': rng.choice(['*', '*', '*', '[!x]*']),
                'spam': [True, False][i] if i < 2 else rng.random() < 0.5,
                # the classifiers trained with it
                'cl': ([] if i > 1 and rng.random() < 0.4 else
                       [0] if ncl == 1 else
                       rng.choice([[0], [1], [0, 1], [0, 1]]))})
        cfg = {'classifiers': cls, 'corpora': corpora,
               'shared': rng.random() < 0.5,
               'plain': rng.random() < 0.3}
        if shelves:
            cfg['dbm'] = shelves[0]['dbm']
        msgs, ops = [], []
        for n in range(rng.randint(2, 6)):
            msgs.append(corpus.gen_message(rng, n, 0.3))
        if rng.random() < 0.4:
            # nearly equal messages: words trained many times
            msgs.append({'h': msgs[0]['h'], 'b': msgs[0]['b']})
        nc = len(corpora)
        names = rng.sample(NAMES, rng.choice([2, 3, 5]))
        for i in range(rng.randint(4, rng.choice([10, 20, 30]))):
            oid = 'a%d' % i
            r = rng.random()
            c, name, m = (rng.randrange(nc), rng.choice(names),
                          rng.randrange(len(msgs)))
            if r < 0.34:
                ops.append([oid, 'add', c, name, m, rng.randrange(3)])
            elif r < 0.50:
                ops.append([oid, 'move', c, name, rng.randrange(nc),
                            rng.randrange(2)])
            elif r < 0.68:
                ops.append([oid, 'remove', c, name, rng.randrange(2), 0])
            elif r < 0.73:
                ops.append([oid, 'silent-add', c, name, m, 0])
            elif r < 0.77:
                ops.append([oid, 'silent-remove', c, name, 0, 0])
            elif r < 0.84:
                ops.append([oid, 'broken-add', c, name, m,
                            rng.randrange(14)])
            elif r < 0.88:
                ops.append([oid, 'broken-remove', c, name, 0,
                            rng.randrange(10)])
            elif r < 0.90:
                ops.append([oid, 'look', c, name, 0, 0])
            elif r < 0.92:
                ops.append([oid, 'share', c, name, rng.randrange(nc), 0])
            elif r < 0.94:
                ops.append([oid, 'score', c, name, m, 0])
            elif r < 0.955:
                ops.append([oid, 'store', c, name, 0, 0])
            elif r < 0.97:
                ops.append([oid, 'reopen', c, name, 0, 0])
            else:
                ops.append([oid, 'restart', 0, '', 0, 0])
        return {'cfg': cfg, 'messages': msgs,
                '_profile': rng.random() < 0.5,
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        byop = {op[0]: op[1] for op in plan['actors'][0]['ops']}
        ids = {o for o, k in byop.items() if k in (
            'add', 'move', 'share', 'remove', 'silent-add',
            'silent-remove')}
        ids |= {o + 't' for o in ids}
        cs = calls(profile, ops=ids)
        db = [c for c in cs if c[2] in DB]
        for _ in range(rng.choice([1, 1, 2])):
            if not cs:
                return
            op, io, name, path = rng.choice(
                db if db and rng.random() < 0.6 else cs)
            f = {'op': op, 'io': io}
            if name == 'write' and rng.random() < 0.4:
                f.update(kind='full', keep=rng.choice([0, 0.5]))
            else:
                f.update(kind='err', errno=rng.choice(['EIO', 'EACCES']))
            if rng.random() < 0.2:
                f['sticky'] = True
            plan['faults'].append(f)

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home')
        for i, cc in enumerate(env.cfg['corpora']):
            if cc['kind'] == 'file':
                env.vfs.mkdirs(self.dir(i))
        env.vfs.sync_all()
        from sbclassifier.tokenizer import tokenize
        d['tokens'] = [list(tokenize(corpus.build(m)))
                       for m in env.plan['messages']]
        d['big'] = [BACKENDS[c['backend']].bigrams
                    for c in env.cfg['classifiers']]
        words = {w for ts in d['tokens'] for w in ts}
        if any(d['big']):
            words |= {w for ts in d['tokens'] for w in common.expand(ts)}
        d['words'] = sorted(words, key=lambda w: (isinstance(w, bytes), w))
        d['model'] = [Model(bigrams=b) for b in d['big']]
        d['exact'] = [True] * len(d['big'])   # scores can be predicted
        d['in'] = [{} for _ in env.cfg['corpora']]  # name -> (msg, trained)
        d['b'] = []
        for j, c in enumerate(env.cfg['classifiers']):
            b = BACKENDS[c['backend']](env)
            b.path += '%d' % j
            d['b'].append(b)
        d['corpus'] = {}
        d['old'] = []
        d['shared'] = []    # messages that are in more than one corpus
        common.Actor(env, env.plan['actors'][0], self.run_op,
                     on_start=lambda a: self.start(a.env, 'start'))
        env.sigparts.append((repr(sorted(env.cfg.items())), [
            o[1:] for o in env.plan['actors'][0]['ops']]))

    def dir(self, i):
        return '/data/home/corpus%d' % i

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        return res[1]

    def start(self, env, opid):
        d = env.data
        d['c'] = [self.ok(env, env.k.call('%sc%d' % (opid, j), b.open),
                          'opening %s' % b.name)
                  for j, b in enumerate(d['b'])]
        d['held'] = {}
        for i, cc in enumerate(env.cfg['corpora']):
            self.open_corpus(env, '%so%d' % (opid, i), i)
        self.trainers(env, opid, range(len(env.cfg['corpora'])))

    def open_corpus(self, env, opid, i):
        from sbclassifier.corpora import Corpus, FileCorpus
        cc = env.cfg['corpora'][i]
        if i in env.data['corpus']:
            env.data['old'].append(env.data['corpus'][i])
        if cc['kind'] == 'mem':
            fn = Corpus
        else:
            fn = lambda: FileCorpus(self.dir(i), cc['filter'],  # noqa
                                    cache_size=cc['size'])
        env.data['corpus'][i] = self.ok(env, env.k.call(opid, fn),
                                        'opening a corpus')

    def trainers(self, env, opid, which):
        from sbclassifier.trainers import HamTrainer, SpamTrainer, Trainer
        d = env.data
        groups = {}
        for i in which:
            cc = env.cfg['corpora'][i]
            for j in cc['cl']:
                key = (j, cc['spam'], -1 if env.cfg['shared'] else i)
                groups.setdefault(key, []).append(i)
        d.setdefault('trainers', [])
        for (j, spam, _), ids in sorted(groups.items()):
            cs = [d['corpus'][i] for i in ids]
            if env.cfg['plain']:
                fn = lambda: Trainer(d['c'][j], spam, cs)  # noqa
            else:
                fn = lambda: (SpamTrainer if spam else HamTrainer)(  # noqa
                    d['c'][j], cs)
            d['trainers'].append(self.ok(
                env, env.k.call('%st%d%d' % (opid, j, ids[0]), fn),
                'making a trainer'))

    def build(self, env, m, name, form=0):
        msg = env.plan['messages'][m]
        ascii_only = all(b < 128 for b in corpus.raw(msg))
        return corpus.build(msg, name, as_string=form == 2 and ascii_only)

    # ------------------------------------------------------------ the oracle
    def compare(self, env, opid, what, watchers=()):
        """Every classifier against the messages trained."""
        d = env.data
        for j, c in enumerate(d['c']):
            got = self.state(env, '%sv%d' % (opid, j), j)
            if got != d['model'][j]:
                env.violate('differs', 'after %s a %s classifier differs '
                            'from the messages trained: %s' % (
                                what, d['b'][j].name,
                                diff(got, d['model'][j])))
            if d['exact'][j] and env.k.step % 3 == 0:
                self.scores(env, opid, j, what)

    def state(self, env, opid, j):
        d = env.data
        got = self.ok(env, env.k.call(opid, observe, d['c'][j], d['words']),
                      'looking words up')
        return got

    def scores(self, env, opid, j, what):
        with images.oracle():
            from sbclassifier.classifiers.basic import Classifier
        d = env.data
        ref = Classifier(d['big'][j])
        for (m, spam), n in d['model'][j].msgs.items():
            for _ in range(n):
                ref.learn(list(m), spam)
        for m, ts in enumerate(d['tokens'][:3]):
            res = env.k.call('%ss%d%d' % (opid, j, m),
                             d['c'][j].spamprob, list(ts))
            want = ref.spamprob(list(ts))
            if res[0] == 'exc' or res[1] != want:
                env.violate('score', 'after %s message %d scores %s, a '
                            'fresh classifier gives it %r'
                            % (what, m, res[1], want))

    def trained(self, env, i, m, sign):
        d = env.data
        cc = env.cfg['corpora'][i]
        for j in cc['cl']:
            d['model'][j].train(d['tokens'][m], cc['spam'], sign)

    def after_failure(self, env, opid, i, m, sign, what):
        """Training a message failed: each classifier is as before or (when
        the failure was another's) as it would be after."""
        d = env.data
        cc = env.cfg['corpora'][i]
        db = [p for p in env.k.fault_points if p[0] == opid
              and (p[3] in DB or env.cfg.get('dbm') == 'dumb')]
        n = len(cc['cl'])
        for j in range(len(d['c'])):
            old = d['model'][j]
            got = self.state(env, '%sx%d' % (opid, j), j)
            if got == old:
                continue
            if j not in cc['cl']:
                env.violate('other-differs', 'after %s a classifier that '
                            'was not concerned changed: %s'
                            % (what, diff(got, old)))
            new = old.copy()
            new.train(d['tokens'][m], cc['spam'], sign)
            if got == new and n > 1:
                d['model'][j] = new
                continue
            if d['b'][j].name == 'shelf' and db:
                self.bounds(env, got, old, new, what)
                got.msgs = old.msgs
                got.bigrams = old.bigrams
                d['model'][j] = got
                d['exact'][j] = False
                continue
            env.violate('failed-training', 'after %s a %s classifier is '
                        'neither as before nor trained: %s'
                        % (what, d['b'][j].name, diff(got, old)))

    def bounds(self, env, got, old, new, what):
        for name in ('nspam', 'nham'):
            if getattr(got, name) not in (getattr(old, name),
                                          getattr(new, name)):
                env.violate('failed-training', 'after %s %s is %d'
                            % (what, name, getattr(got, name)))
        for w in env.data['words']:
            n = got.counts.get(w, (0, 0))
            if n not in (old.counts.get(w, (0, 0)),
                         new.counts.get(w, (0, 0))):
                env.violate('failed-training', 'after %s %r has counts %s '
                            'instead of %s or %s' % (
                                what, w, n, old.counts.get(w, (0, 0)),
                                new.counts.get(w, (0, 0))))

    def present(self, env, opid, i, name):
        return self.ok(env, env.k.call(
            opid + 'p', lambda: name in set(env.data['corpus'][i].keys())),
            'keys()')

    def faulted(self, env, opid):
        return any(p[0] == opid for p in env.k.fault_points)

    # ------------------------------------------------------------ operations
    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, i, name, x, y = op
        cc = env.cfg['corpora'][i]
        what = '%s %r %s' % (kind, name, 'corpus %d' % i)
        if kind in ('add', 'silent-add', 'broken-add'):
            if name in d['in'][i]:
                return
            self.do_add(env, opid, kind, i, name, x, y, what)
        elif kind in ('remove', 'silent-remove', 'broken-remove'):
            if name not in d['in'][i]:
                return
            self.do_remove(env, opid, kind, i, name, x, y, what)
        elif kind == 'move':
            if (name not in d['in'][i] or x == i or name in d['in'][x]
                    or not d['in'][i][name][1]):
                return
            m = d['in'][i][name][0]
            msg = self.do_remove(env, opid, 'remove', i, name, y, 0, what)
            if msg is not None:
                self.do_add(env, opid + 't', 'add', x, name, m, 0,
                            'moving %r to corpus %d' % (name, x), msg)
        elif kind == 'share':
            # the same message object in two corpora: copied, or moved by
            # adding it to one before removing it from the other
            msg = d['held'].get((i, name))
            if (msg is None or x == i or name in d['in'][x]
                    or name not in d['in'][i]):
                return
            m = d['in'][i][name][0]
            d['shared'].append(msg)
            self.do_add(env, opid, 'add', x, name, m, 0,
                        'adding %r to corpus %d too' % (name, x), msg)
        elif kind == 'look':
            if name in d['in'][i]:
                res = k.call(opid, d['corpus'][i].__getitem__, name)
                got = self.ok(env, res, 'lookup')
                if canon(got) != canon_raw(
                        env.plan['messages'][d['in'][i][name][0]]):
                    env.violate('content', '%s: %.300r' % (what, got))
                d['held'][i, name] = got
            list_ = k.call(opid + 'l', lambda: list(d['corpus'][i].values()))
            if len(self.ok(env, list_, 'values()')) != len(d['in'][i]):
                env.violate('content', 'corpus %d shows %d messages instead '
                            'of %d' % (i, len(list_[1]), len(d['in'][i])))
        elif kind == 'score':
            for j, c in enumerate(d['c']):
                self.ok(env, k.call('%ss%d' % (opid, j), c.spamprob,
                                    list(d['tokens'][x])), 'spamprob')
        elif kind == 'store':
            for j, c in enumerate(d['c']):
                self.ok(env, k.call('%ss%d' % (opid, j), d['b'][j].store, c),
                        'store')
        elif kind == 'reopen':
            if cc['kind'] == 'file':
                self.open_corpus(env, opid, i)
                self.trainers(env, opid, [i])
                d['held'] = {key: v for key, v in d['held'].items()
                             if key[0] != i}
                k.fire('corpus reopened')
        elif kind == 'restart':
            self.restart(a, opid)
        self.compare(env, opid, what)
        d['old'].clear()

    def restart(self, a, opid):
        env = a.env
        d = env.data
        k = env.k
        for j, c in enumerate(d['c']):
            self.ok(env, k.call('%ss%d' % (opid, j), d['b'][j].store, c),
                    'store')
            self.ok(env, k.call('%sq%d' % (opid, j), d['b'][j].close, c),
                    'close')
        c = None        # noqa
        k.kill(a.task.proc)
        d['trainers'] = []
        d['corpus'].clear()
        d['old'].clear()
        d['shared'].clear()
        d['c'] = []
        a.task.proc = k.new_proc('A-%s' % opid)
        for i, cc in enumerate(env.cfg['corpora']):
            if cc['kind'] == 'mem':
                d['in'][i].clear()      # gone, and trained for good
        self.start(env, opid)
        k.fire('restart')

    def do_add(self, env, opid, kind, i, name, m, form, what, msg=None):
        d = env.data
        k = env.k
        cc = env.cfg['corpora'][i]
        if msg is None:
            msg = self.build(env, m, None if form == 1 else name, form)
        bomb = None
        if kind == 'broken-add':
            bomb = arm(msg, form)
        args = [msg] if msg.id() is not None else [msg, name]
        kw = {'emit_signal': False} if kind == 'silent-add' else {}
        was = msg.is_trained()
        res = k.call(opid, d['corpus'][i].add_message, *args, **kw)
        if bomb:
            bomb.disarm()
        bad = cc['kind'] == 'file' and not matches(name, cc['filter'])
        if bad:
            if res[0] == 'ok':
                env.violate('filter', '%s although it does not match the '
                            'filter' % what)
            if msg.is_trained() is not was:
                env.violate('claims-trained', '%s: a message that was '
                            'rejected is_trained(): %r'
                            % (what, msg.is_trained()))
            return
        watched = bool(cc['cl']) and kind != 'silent-add'
        if res[0] == 'ok':
            if bomb and bomb.fired and watched:
                env.violate('swallowed', '%s: the failure of the message '
                            'did not reach the caller' % what)
            d['in'][i][name] = (m, kind != 'silent-add')
            d['held'][i, name] = msg
            if watched:
                self.trained(env, i, m, 1)
                k.probes['trained'] += 1
            want = cc['spam'] if watched else was
            if msg.is_trained() is not want:
                env.violate('training-state', '%s: is_trained() is %r, not '
                            '%r' % (what, msg.is_trained(), want))
            return
        # it failed
        if not self.faulted(env, opid) and not (bomb and bomb.fired):
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        k.probes['failed add'] += 1
        n = len(cc['cl'])
        if msg.is_trained() is not was and not (
                n > 1 and msg.is_trained() is cc['spam']):
            env.violate('claims-trained', '%s failed (%s), but '
                        'is_trained() is %r'
                        % (what, describe(res), msg.is_trained()))
        self.after_failure(env, opid, i, m, 1, 'a failed ' + what)
        if self.present(env, opid, i, name):
            if not matches(name, cc['filter']) and cc['kind'] == 'file':
                env.violate('filter', what)
            got = self.ok(env, k.call(opid + 'g', d['corpus'][i].__getitem__,
                                      name), 'lookup')
            self.ok(env, k.call(opid + 'd', d['corpus'][i].remove_message,
                                got, emit_signal=False), 'removing it')

    def do_remove(self, env, opid, kind, i, name, how, n, what):
        """Remove; returns the message if that worked."""
        d = env.data
        k = env.k
        cc = env.cfg['corpora'][i]
        m, noisy = d['in'][i][name]
        msg = d['held'].get((i, name)) if how else None
        if msg is None:
            msg = self.ok(env, k.call(opid + 'g', d['corpus'][i].__getitem__,
                                      name), 'lookup of ' + what)
            if msg.id() != name:
                env.violate('content', '%s: its id is %r' % (what, msg.id()))
        silent = kind == 'silent-remove' or not noisy
        bomb = arm(msg, n) if kind == 'broken-remove' else None
        was = msg.is_trained()
        if silent:
            res = k.call(opid, d['corpus'][i].remove_message, msg, False)
        else:
            res = k.call(opid, d['corpus'][i].remove_message, msg)
        if bomb:
            bomb.disarm()
        watched = bool(cc['cl']) and not silent
        if res[0] == 'ok':
            if bomb and bomb.fired and watched:
                env.violate('swallowed', '%s: the failure of the message '
                            'did not reach the caller' % what)
            del d['in'][i][name]
            d['held'].pop((i, name), None)
            if watched:
                self.trained(env, i, m, -1)
                k.probes['untrained'] += 1
            want = None if watched else was
            if msg.is_trained() is not want and not any(
                    s is msg for s in d['shared']):
                env.violate('training-state', '%s: is_trained() is %r, not '
                            '%r' % (what, msg.is_trained(), want))
            return None if silent else msg
        if not self.faulted(env, opid) and not (bomb and bomb.fired):
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        k.probes['failed remove'] += 1
        self.after_failure(env, opid, i, m, -1, 'a failed ' + what)
        if not self.present(env, opid, i, name):
            del d['in'][i][name]
            d['held'].pop((i, name), None)
        return None


class arm:
    """Makes the parts of a message unreadable after some of them."""

    def __init__(self, msg, n):
        self.msg, self.left, self.fired = msg, n, False
        bomb = self
        base = type(msg)

        class Bad(base):
            def walk(self):
                for part in super().walk():
                    bomb.tick()
                    yield part

            def get_all(self, *args):
                bomb.tick()
                return super().get_all(*args)
        self.base = base
        msg.__class__ = Bad

    def tick(self):
        self.left -= 1
        if self.left < 0:
            self.fired = True
            raise Broken('this part of the message cannot be read')

    def disarm(self):
        self.msg.__class__ = self.base


SCENARIO = C12()
