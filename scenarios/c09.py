"""C09: a message directory and its corpus always agree."""
from simkit.sim import Scenario

from . import common, corpus
from .common import describe
from .corpus import BAD_KEYS, DIR, FILTERS, KEYS, canon, canon_raw, matches


MEMORY = 'memory', 'bounded'


class C09(Scenario):
    prop = 'C09'
    quick_runs = 8000
    rule = ('A run is a random history of add (under the id of the message '
            'or an explicit one)/re-add (also after changing the message in '
            'memory)/remove (also of ids that are not there or not allowed)/'
            'lookup/iterate/reopen on one '
            'or two corpora of one directory (or a corpus in memory, with '
            'or without a limit), with '
            'files appearing, changing and disappearing behind their backs, '
            'any filter, cache size and listing order; after every operation '
            'the answers are compared with the files.')
    assumptions = (
        'A file that replaces another one differs in inode, time or size.',
        'Messages have line ends \\n and no empty continuation lines.',
        'A message is not added under an id other than its own.')

    def generate(self, rng):
        kind = rng.choice(['file'] * 14 + ['expiry', 'expiry', 'memory',
                                            'memory', 'bounded'])
        cfg = {'kind': kind,
               'filter': rng.choice(FILTERS) if kind not in MEMORY else '*',
               'sizes': [rng.choice([0, 1, 2, 3, 5, 256, 256]) for _ in range(2)],
               'dir': rng.choice([DIR, 'corpus', 'corpus/'])}
        two = kind == 'file' and rng.random() < 0.3
        if rng.random() < 0.15:
            cfg['filter'] = '*'
            cfg['sizes'] = [1, 2]
        nkeys = rng.choice([2, 4, 8, 16])
        keys = rng.sample(KEYS, min(nkeys, len(KEYS)))
        good = [k for k in keys if matches(k, cfg['filter'])] or keys
        ops = []
        nmsg = 0
        msgs = []
        for i in range(rng.randint(0, 3) if kind not in MEMORY else 0):
            ops.append(['s%d' % i, 'foreign-add', rng.choice(good), nmsg, 0])
            msgs.append(corpus.gen_similar(rng, msgs))
            nmsg += 1
        start = len(ops)
        n = rng.randint(3, rng.choice([8, 16, 30]))
        for i in range(n):
            oid = 'a%d' % i
            c = rng.randrange(2) if two else 0
            r = rng.random()
            key = rng.choice(good if rng.random() < 0.85 else keys)
            if r < 0.32:
                form = rng.choice(['own', 'own', 'explicit', 'both'])
                if rng.random() < 0.06 and kind not in MEMORY:
                    key = rng.choice(BAD_KEYS)
                ops.append([oid, 'add', key, nmsg, c, form,
                            rng.random() < 0.8])
            elif r < 0.48:
                ops.append([oid, 'remove', key, 0, c,
                            rng.choice(['lookup', 'same', 'same'])])
            elif r < 0.52:
                if rng.random() < 0.5:
                    key = rng.choice(keys + (BAD_KEYS if kind not in MEMORY
                                             else []))
                ops.append([oid, 'stranger', key, 0, c])
            elif r < 0.60:
                ops.append([oid, 'get', key, 0, c])
            elif r < 0.64 and kind not in MEMORY:
                ops.append([oid, 'get', rng.choice(BAD_KEYS), 0, c])
            elif r < 0.70 and kind not in MEMORY:
                ops.append([oid, 'foreign-add', key, nmsg, c])
            elif r < 0.75 and kind not in MEMORY:
                ops.append([oid, 'foreign-remove', key, 0, c])
            elif r < 0.78 and kind not in MEMORY:
                ops.append([oid, 'foreign-dir', key, 0, c])
            elif r < 0.86 and kind not in MEMORY:
                ops.append([oid, 'reopen', key, 0, c])
            elif r < 0.93:
                ops.append([oid, 'iterate', key, 0, c])
            elif r < 0.965:
                ops.append([oid, 'readd', key, 0, c])
            else:
                ops.append([oid, 'edit', key, nmsg, c])
            if ops[-1][1] in ('add', 'foreign-add', 'edit'):
                msgs.append(corpus.gen_similar(rng, msgs))
                nmsg += 1
        cfg['two'] = two
        cfg['start'] = start
        return {'cfg': cfg, 'messages': msgs, '_profile': False,
                'actors': [{'name': 'A', 'ops': ops}]}

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs(DIR)
        env.vfs.poke('/data/home/outside', b'Subject: not yours\n\n')
        env.vfs.sync_all()
        d['files'] = {}         # name -> index of the message in it
        d['dirs'] = set()
        d['c'] = [None, None]
        d['held'] = {}          # message objects the program keeps
        d['outside'] = None
        common.Actor(env, env.plan['actors'][0], self.run_op,
                     on_start=self.start)
        env.sigparts.append((sorted(env.cfg.items(), key=repr), [
            o[1:] for o in env.plan['actors'][0]['ops']]))

    def new(self, env, i):
        from sbclassifier.corpora.base import Corpus
        from sbclassifier.corpora.filesystem import (ExpiryFileCorpus,
                                                     FileCorpus)
        size = env.cfg['sizes'][i]
        if env.cfg['kind'] == 'memory':
            return Corpus()
        if env.cfg['kind'] == 'bounded':
            from sbclassifier.corpora.caches import NaiveCache
            return Corpus(NaiveCache(size))
        if env.cfg['kind'] == 'expiry':
            return ExpiryFileCorpus(1e9, env.cfg['dir'], env.cfg['filter'],
                                    cache_size=size)
        return FileCorpus(env.cfg['dir'], env.cfg['filter'], cache_size=size)

    def open(self, env, i, opid):
        env.data['c'][i] = None
        env.data['c'][i] = self.ok(env, env.k.call(
            '%so%d' % (opid, i), self.new, env, i), 'opening the corpus')

    def start(self, a):
        self.open(a.env, 0, 'start')
        if a.env.cfg['two']:
            self.open(a.env, 1, 'start')
        self.outside(a.env)

    def outside(self, env):
        """Everything outside the directory."""
        now = {p: v for p, v in env.vfs.tree().items()
               if not p.startswith(DIR + '/')}
        if env.data['outside'] is None:
            env.data['outside'] = now
        elif now != env.data['outside']:
            env.violate('outside', 'files outside the directory changed: %s'
                        % sorted(set(now.items()) ^
                                 set(env.data['outside'].items())))

    def ok(self, env, res, what):
        if res[0] == 'exc':
            env.violate('op-fails', '%s: %s' % (what, describe(res)))
        return res[1]

    def shown(self, env):
        """{key: index} of the messages the corpora must contain."""
        d = env.data
        return {k: m for k, m in d['files'].items()
                if matches(k, env.cfg['filter'])}

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, key, m, i = op[:5]
        if kind.startswith('foreign'):
            k.fire(kind)
        c = d['c'][i]
        if c is None:
            i, c = 0, d['c'][0]
        if kind == 'add':
            self.op_add(env, opid, c, key, m, op[5], op[6])
        elif kind in ('readd', 'edit'):
            msg = d['held'].get(key)
            if msg is None or not matches(key, env.cfg['filter']) or \
                    key in d['dirs']:
                return
            if kind == 'edit':
                # (a corpus may hold the same message object)
                msg = msg[0], m
                corpus.become(msg[0], env.plan['messages'][m])
                d['held'][key] = msg
            self.ok(env, k.call(opid, c.add_message, msg[0]), 'adding again')
            d['files'][key] = msg[1]
            self.forget(env)
        elif kind == 'remove':
            self.op_remove(env, opid, c, key, op[5])
        elif kind == 'stranger':
            self.op_stranger(env, opid, c, key)
        elif kind == 'get':
            pass
        elif kind == 'foreign-add':
            if key in d['dirs']:
                return
            path = DIR + '/' + key
            if m % 2:
                env.vfs.poke_unlink(path)
            env.vfs.poke(path, corpus.raw(env.plan['messages'][m]))
            d['files'][key] = m
        elif kind == 'foreign-remove':
            if key not in d['files']:
                return
            env.vfs.poke_unlink(DIR + '/' + key)
            del d['files'][key]
        elif kind == 'foreign-dir':
            if key in d['files'] or key in d['dirs']:
                return
            env.vfs.mkdirs(DIR + '/' + key)
            d['dirs'].add(key)
        elif kind == 'reopen':
            self.open(env, i, opid)
        c = d['c'][i]
        self.lookup(env, opid, c, key)
        if kind != 'get':
            self.agree(env, opid, c)
            if kind == 'iterate' or opid.endswith('5'):
                self.contents(env, opid, c)
        self.limit(env, opid)
        self.directory(env)
        self.outside(env)

    def op_add(self, env, opid, c, key, m, form, hold):
        d = env.data
        own = key if form in ('own', 'both') and key else None
        msg = corpus.build(env.plan['messages'][m], own)
        args = (msg,) if form == 'own' and own else (msg, key)
        res = env.k.call(opid, c.add_message, *args)
        bad = not matches(key, env.cfg['filter'])
        if bad and env.cfg['kind'] not in MEMORY:
            if res[0] == 'ok':
                env.violate('accepted', 'a message %r was added to a '
                            'directory with filter %r'
                            % (key, env.cfg['filter']))
            env.k.probes['rejected keys'] += 1
            return
        if key in d['dirs']:
            if res[0] == 'ok':
                env.violate('accepted', 'message %r is a directory' % key)
            return
        self.ok(env, res, 'add_message')
        if msg.id() != key:
            env.violate('wrong-id', 'a message added as %r has id %r'
                        % (key, msg.id()))
        d['files'][key] = m
        self.forget(env)
        if hold:
            d['held'][key] = (msg, m)

    def forget(self, env):
        """A corpus in memory keeps the latest messages only."""
        if env.cfg['kind'] == 'bounded':
            files = env.data['files']
            while len(files) > env.cfg['sizes'][0]:
                del files[next(iter(files))]
                env.k.probes['messages forgotten'] += 1

    def op_stranger(self, env, opid, c, key):
        """Removing some message with this id, there or not."""
        d = env.data
        msg = corpus.build({'h': [['Subject', 'x']], 'b': ''}, key)
        res = env.k.call(opid, c.remove_message, msg)
        if key not in d['dirs'] and key not in BAD_KEYS:
            self.ok(env, res, 'removing %r' % key)
        if key in self.shown(env):
            del d['files'][key]
            d['held'].pop(key, None)
        else:
            env.k.probes['absent messages removed'] += 1

    def op_remove(self, env, opid, c, key, form):
        d = env.data
        if key not in self.shown(env):
            return
        if form == 'same' and key in d['held']:
            msg = d['held'][key][0]
        else:
            msg = self.ok(env, env.k.call(opid + 'g', c.__getitem__, key),
                          'corpus[%r]' % key)
        self.ok(env, env.k.call(opid, c.remove_message, msg),
                'remove_message')
        del d['files'][key]
        d['held'].pop(key, None)

    def same(self, env, key, msg, m, what):
        if msg is None:
            env.violate('missing', '%s of %r gives nothing' % (what, key))
        if msg.id() != key:
            env.violate('wrong-id', '%s of %r gives id %r'
                        % (what, key, msg.id()))
        got, want = canon(msg), canon_raw(env.plan['messages'][m])
        if got != want:
            env.violate('wrong-content', '%s of %r gives %.300r, not %.300r'
                        % (what, key, got, want))
        env.k.probes['messages compared'] += 1

    def lookup(self, env, opid, c, key):
        want = self.shown(env)
        inside = self.ok(env, env.k.call(opid + 'in', c.__contains__, key),
                         '%r in corpus' % key)
        if inside != (key in want):
            env.violate('membership', '%r in corpus is %s' % (key, inside))
        item = env.k.call(opid + 'it', c.__getitem__, key)
        got = self.ok(env, env.k.call(opid + 'ge', c.get, key),
                      'corpus.get(%r)' % key)
        if key in want:
            self.same(env, key, self.ok(env, item, 'corpus[%r]' % key),
                      want[key], 'lookup')
            self.same(env, key, got, want[key], 'get')
        else:
            if item[0] == 'ok' or not isinstance(item[1], KeyError):
                env.violate('ghost', 'corpus[%r] %s, but there is no such '
                            'message' % (key, describe(item)))
            if got is not None:
                env.violate('ghost', 'corpus.get(%r) gives a message, but '
                            'there is none' % key)
            flag = self.ok(env, env.k.call(opid + 'gd', c.get, key, 'dflt'),
                           'get with default')
            if flag != 'dflt':
                env.violate('default', 'get(%r, default) gives %r'
                            % (key, flag))

    def agree(self, env, opid, c):
        want = sorted(self.shown(env))
        keys = sorted(self.ok(env, env.k.call(opid + 'k', lambda: list(
            c.keys())), 'keys()'))
        if keys != want:
            env.violate('keys', 'keys() gives %r, the directory holds %r'
                        % (keys, want))
        n = self.ok(env, env.k.call(opid + 'n', len, c), 'len()')
        if n != len(want):
            env.violate('length', 'len() is %d, there are %d messages'
                        % (n, len(want)))
        it = sorted(self.ok(env, env.k.call(opid + 'i', lambda: list(c)),
                            'iteration'))
        if it != want:
            env.violate('iteration', 'iterating gives %r, the directory '
                        'holds %r' % (it, want))

    def contents(self, env, opid, c):
        want = self.shown(env)
        vals = self.ok(env, env.k.call(opid + 'v', lambda: list(c.values())),
                       'values()')
        items = self.ok(env, env.k.call(opid + 'm', lambda: list(c.items())),
                        'items()')
        if sorted(m.id() or '' for m in vals) != sorted(want):
            env.violate('values', 'values() gives %r' % [m.id()
                                                         for m in vals])
        for m in vals:
            self.same(env, m.id(), m, want[m.id()], 'values()')
        if sorted(k for k, m in items) != sorted(want):
            env.violate('items', 'items() gives %r' % [k for k, m in items])
        for k, m in items:
            self.same(env, k, m, want[k], 'items()')
        env.k.probes['full comparisons'] += 1

    def limit(self, env, opid):
        """Messages in memory that the program itself does not keep."""
        if env.cfg['kind'] in MEMORY:
            return
        d = env.data
        n = corpus.messages_alive()
        allowed = len(d['held']) + sum(
            env.cfg['sizes'][i] for i in range(2) if d['c'][i] is not None)
        # sub-parts of multipart messages are messages, too
        parts = 1 + max([2 if 'multipart' in dict(m['h']).get(
            'Content-Type', '') else 0 for m in env.plan['messages']] + [0])
        if n > allowed * parts:
            env.violate('memory', '%d messages are in memory, only %d may be'
                        % (n, allowed))
        env.k.probes['memory counts'] += 1

    def directory(self, env):
        """The corpora may not change the directory beyond what they were
        told."""
        if env.cfg['kind'] in MEMORY:
            return
        d = env.data
        tree = env.vfs.tree(DIR)
        names = {p[len(DIR) + 1:] for p, v in tree.items()}
        want = set(d['files']) | d['dirs']
        gone = want - names
        if gone:
            env.violate('file-lost', 'the files of %s have gone'
                        % sorted(gone))
        extra = {n for n in names - want
                 if matches(n, env.cfg['filter']) and not n.startswith('.')}
        if extra:
            env.violate('extra-files', 'there are files %s'
                        % sorted(extra))


SCENARIO = C09()
