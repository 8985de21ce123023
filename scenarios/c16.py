"""C16: a corpus directory can be shared while others change it."""
import email

from simkit.kernel import SimCrash, current_task
from simkit.sim import Scenario, calls, dense_preempts, place_preempts

from . import common, corpus
from .common import describe
from .corpus import DIR, canon, canon_raw, matches

KEYS = ['m1.eml', 'm2.eml', 'm3.eml', 'm4', 'm5']
READS = ('get', 'getitem', 'in', 'keys', 'iter', 'items', 'values', 'len',
         'repr')
EPS = 0.01
FAR = 1 << 60


class C16(Scenario):
    prop = 'C16'
    quick_runs = 9000
    rule = ('A run lets two or three processes with corpora of their own on '
            'one directory add, replace, look up, list, iterate, remove and '
            'expire messages under a random schedule that switches processes '
            'at intercepted calls, in some runs with slow calls and killed '
            'processes; every result is compared with the versions of the '
            'files that were there while the operation ran, and in the end '
            'every corpus with the files.')
    assumptions = (
        'Two versions of a file differ in inode, modification time or size.',
        'A message that another process replaces while it is being expired '
        'may be removed in its place (there are no locks).')

    def generate(self, rng):
        nproc = rng.choice([2, 2, 3])
        kind = rng.choice(['file', 'file', 'expiry'])
        age = rng.choice([60, 1000])
        keys = rng.sample(KEYS, rng.choice([1, 2, 3, 5]))
        msgs, actors, n = [], [], 0

        def msg():
            msgs.append(corpus.gen_similar(rng, msgs))
            return len(msgs) - 1
        weights = [(rng.choice(['add', 'add', 'remove', 'get', 'items', ''])
                    if rng.random() < 0.4 else '') for _ in range(nproc)]
        kinds = ['add', 'add', 'add', 'remove', 'remove', 'remove-held',
                 'add-held', 'foreign-add', 'foreign-remove', 'reopen'] + \
            list(READS) + ['get', 'getitem', 'items', 'values', 'keys']
        if kind == 'expiry':
            kinds += ['expire'] * 5 + ['advance'] * 3
        for i in range(nproc):
            ops = []
            for j in range(rng.randint(1, rng.choice([3, 5, 8]))):
                n += 1
                k = weights[i] if weights[i] and rng.random() < 0.6 else \
                    rng.choice(kinds)
                ops.append(['p%d' % n, k, rng.choice(keys), msg() if k in (
                    'add', 'foreign-add') else 0,
                    rng.choice([0.4, 0.6, 1.1, 2.5]) * age])
            actors.append({'name': 'P%d' % i, 'ops': ops, 'filter': rng.choice(
                ['*', '*', '*', '*.eml', 'm[1-4]*']),
                'size': rng.choice([1, 2, 256, 256]),
                'relative': rng.random() < 0.2})
        init = [[key, msg()] for key in keys if rng.random() < 0.6]
        return {'cfg': {'kind': kind, 'age': age}, 'messages': msgs,
                'init': init, 'shrink': [['init']], 'actors': actors}

    def place(self, rng, plan, profile):
        ids = {op[0] for a in plan['actors'] for op in a['ops']}
        prof = {o: c for o, c in profile.items() if o in ids}
        place_preempts(rng, plan, prof, rng.choice([1, 2, 3, 5, 8, 16, 30]))
        if rng.random() < 0.25:
            dense_preempts(rng, plan, calls(prof), (5, 10, 30))
        cs = calls(prof)
        if not cs:
            return
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 2)):
                op, io, name, path = rng.choice(cs)
                plan['faults'].append(
                    {'op': op, 'io': io, 'kind': 'stall',
                     'sec': plan['cfg']['age'] * rng.choice([0.1, 0.6, 2])})
        if rng.random() < 0.2:
            op, io, name, path = rng.choice(cs)
            f = {'op': op, 'io': io, 'kind': 'crash'}
            if name == 'write':
                f['torn'] = rng.choice([0, 0.5, 1])
            plan['faults'].append(f)

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        d['dir'] = env.vfs.mkdirs(DIR)
        d['versions'] = []       # [key, inode, from step, to step, who]
        d['history'] = []
        d['corpora'] = {}
        env.vfs.on_meta = lambda *a: self.changed(env, *a)
        for key, m in env.plan['init']:
            env.vfs.poke(DIR + '/' + key, corpus.raw(env.plan['messages'][m]))
        env.vfs.sync_all()
        for i, spec in enumerate(env.plan['actors']):
            common.Actor(env, spec, self.run_op, self.recover,
                         proc=env.k.new_proc('proc%d' % i),
                         on_start=lambda a: self.open(a, a.spec['name'] +
                                                      'open'))
        env.sigparts.append((sorted(env.cfg.items()), [
            (a['filter'], a['size'], [o[1:4] for o in a['ops']])
            for a in env.plan['actors']], env.plan['init']))

    def changed(self, env, d, name, old, new):
        """A directory entry changes (called by the file system)."""
        if d is not env.data['dir'] or name not in KEYS:
            # (a temporary file is no message)
            return
        step = env.k.step
        t = current_task()
        for v in env.data['versions']:
            if v['key'] == name and v['to'] == FAR:
                v['to'] = step
                v['by'] = t.op if t else None
                v['gone'] = env.k.wall()
        if new is not None and not new.isdir():
            env.data['versions'].append(
                {'key': name, 'node': new, 'from': step, 'to': FAR,
                 'adder': t.op if t else None})

    def open(self, a, opid):
        from sbclassifier.corpora.filesystem import (ExpiryFileCorpus,
                                                     FileCorpus)
        env, s = a.env, a.spec
        path = 'corpus' if s['relative'] else DIR

        def make():
            if env.cfg['kind'] == 'expiry':
                return ExpiryFileCorpus(env.cfg['age'], path, s['filter'],
                                        cache_size=s['size'])
            return FileCorpus(path, s['filter'], cache_size=s['size'])
        res = env.k.call(opid, make)
        if res[0] == 'exc':
            env.violate('raised', 'opening a corpus: ' + describe(res))
        a.c = env.data['corpora'][s['name']] = res[1]
        a.held = {}

    def recover(self, a):
        self.open(a, '%srec%d' % (a.spec['name'], a.crashes))

    def record(self, a, opid, kind, key, m, fn, *args):
        """Run an operation and remember what it did and when."""
        k = a.env.k
        rec = {'op': opid, 'kind': kind, 'key': key, 'm': m,
               'start': k.step, 'wall': k.wall(), 'who': a.spec['name'],
               'filter': a.spec['filter'], 'end': None, 'res': None}
        a.env.data['history'].append(rec)
        k.step += 1
        try:
            res = k.call(opid, fn, *args)
        except SimCrash:
            rec['end'], rec['res'] = k.step, ('crash', None)
            raise
        k.step += 1
        rec['end'] = k.step
        if res[0] == 'ok' and kind in ('get', 'getitem'):
            v = res[1]
            res = 'ok', None if v is None else (v.id(), canon(v))
        elif res[0] == 'ok' and kind == 'items':
            res = 'ok', [(x, v.id(), canon(v)) for x, v in res[1]]
        elif res[0] == 'ok' and kind == 'values':
            res = 'ok', [(v.id(), v.id(), canon(v)) for v in res[1]]
        rec['res'] = res
        return rec

    def run_op(self, a, op):
        env, k = a.env, a.env.k
        opid, kind, key, m, sec = op
        c = a.c
        path = DIR + '/' + key
        if kind == 'advance':
            k.now += sec
            k.wake_sleepers()
        elif kind == 'reopen':
            self.open(a, opid)
        elif kind == 'foreign-add':
            # a mail program moves a file into the directory
            tmp = '/data/home/new-%s' % opid
            env.vfs.poke(tmp, corpus.raw(env.plan['messages'][m]))
            k.call(opid, env.vfs.sys_rename, tmp, path)
            k.fire('foreign-add')
        elif kind == 'foreign-remove':
            k.call(opid, env.vfs.sys_unlink, path)
            k.fire('foreign-remove')
        elif kind == 'expire':
            self.record(a, opid, kind, None, 0, c.remove_expired_messages)
        elif kind in ('keys', 'iter', 'items', 'values', 'len', 'repr'):
            fn = {'keys': lambda: list(c.keys()),
                  'iter': lambda: list(c),
                  'items': lambda: list(c.items()),
                  'values': lambda: list(c.values()),
                  'len': lambda: len(c), 'repr': lambda: repr(c)}[kind]
            self.record(a, opid, kind, None, 0, fn)
        elif not matches(key, a.spec['filter']):
            if kind in ('get', 'in'):
                rec = self.record(a, opid, 'other', key, 0,
                                  lambda: (c.get(key), key in c))
                if rec['res'] != ('ok', (None, False)):
                    env.violate('phantom', '%s: %r does not match the filter '
                                '%r but is there: %r' % (
                                    opid, key, a.spec['filter'], rec['res']))
        elif kind == 'in':
            self.record(a, opid, kind, key, 0, lambda: key in c)
        elif kind == 'get':
            self.record(a, opid, kind, key, 0, c.get, key)
        elif kind == 'getitem':
            def get():
                v = c[key]
                a.held[key] = v
                return v
            self.record(a, opid, kind, key, 0, get)
        elif kind == 'add' or kind == 'add-held' and key in a.held:
            if kind == 'add':
                a.held[key] = corpus.build(env.plan['messages'][m], key)
            self.record(a, opid, 'add', key, canon(a.held[key]),
                        c.add_message, a.held[key])
        elif kind == 'remove-held' and key in a.held:
            self.record(a, opid, 'remove', key, 0, c.remove_message,
                        a.held[key])
        elif kind == 'remove':
            def get():
                v = c.get(key)
                if v is not None:
                    a.held[key] = v
                return v
            rec = self.record(a, opid + 'g', 'get', key, 0, get)
            if rec['res'][0] == 'ok' and rec['res'][1] is not None:
                self.record(a, opid, 'remove', key, 0, c.remove_message,
                            a.held[key])

    # ------------------------------------------------------------ the oracle
    def said(self, v):
        """What the file of a version says (in the end)."""
        if 'said' not in v:
            v['said'] = canon(email.message_from_bytes(bytes(
                v['node'].data)))
        return v['said']

    def during(self, env, key, rec):
        return [v for v in env.data['versions'] if v['key'] == key and
                v['from'] <= rec['end'] and v['to'] >= rec['start']]

    def missing(self, env, key, rec):
        """Was there a moment without a file of that name?"""
        at = rec['start']
        for v in sorted(self.during(env, key, rec), key=lambda v: v['from']):
            if v['from'] > at:
                return True
            at = max(at, v['to'])
        return at <= rec['end']

    def judge(self, env, rec):
        kind, key, res = rec['kind'], rec['key'], rec['res']
        what = '%s of %s: %s%s' % (rec['op'], rec['who'], kind,
                                   '' if key is None else ' %r' % key)
        k = env.k
        if res is None or res[0] == 'crash':
            return
        if res[0] == 'exc':
            if kind == 'getitem' and isinstance(res[1], KeyError):
                if not self.missing(env, key, rec):
                    env.violate('not-found', '%s: KeyError, but the file was '
                                'there all the time' % what)
                k.probes['reported missing'] += 1
                return
            env.violate('raised', '%s: %s' % (what, describe(res)))
        val = res[1]
        if kind in ('get', 'getitem'):
            if val is None:
                if kind == 'getitem' or not self.missing(env, key, rec):
                    env.violate('not-found', '%s: None, but the file was '
                                'there all the time' % what)
                k.probes['reported missing'] += 1
                return
            self.whole(env, rec, what, key, *val)
        elif kind == 'in':
            if val is not True and not self.missing(env, key, rec):
                env.violate('not-found', '%s: %r, but the file was there all '
                            'the time' % (what, val))
            if val is not False and not self.during(env, key, rec):
                env.violate('phantom', '%s: %r, but no such file was there'
                            % (what, val))
        elif kind in ('keys', 'iter', 'items', 'values'):
            keys = val if kind in ('keys', 'iter') else [x[0] for x in val]
            if len(set(keys)) != len(keys):
                env.violate('twice', '%s gives %r' % (what, keys))
            for x in keys:
                if not self.during(env, x, rec) or not matches(
                        x, rec['filter']):
                    env.violate('phantom', '%s gives %r, but no such file '
                                'was there' % (what, x))
            for x in self.certain(env, rec):
                if x not in keys:
                    env.violate('skipped', '%s gives %r without %r, which '
                                'was there all the time' % (what, keys, x))
            if kind in ('items', 'values'):
                for x in val:
                    self.whole(env, rec, what, *x)
                k.probes['iterations during changes'] += any(
                    rec['start'] < v['from'] < rec['end'] or
                    rec['start'] < v['to'] < rec['end']
                    for v in env.data['versions'])
        elif kind == 'len':
            lo = len(self.certain(env, rec))
            hi = len({v['key'] for v in env.data['versions']
                      if v['from'] <= rec['end'] and v['to'] >= rec['start']
                      and matches(v['key'], rec['filter'])})
            if not lo <= val <= hi:
                env.violate('length', '%s is %r, there were between %d and '
                            '%d messages' % (what, val, lo, hi))
        elif kind == 'add':
            vs = [v for v in self.during(env, key, rec)
                  if v['adder'] == rec['op']]
            if not vs or self.said(vs[-1]) != rec['m']:
                env.violate('not-added', '%s returned, but its file did not '
                            'appear whole: %.300r' % (
                                what, [self.said(v) for v in vs]))
        elif kind == 'remove':
            if not self.missing(env, key, rec):
                env.violate('not-removed', '%s returned, but the file was '
                            'there all the time' % what)
            for v in self.removed(env, rec):
                if v['key'] != key:
                    env.violate('wrong-removed', '%s removed %r'
                                % (what, v['key']))
        elif kind == 'expire':
            age = env.cfg['age']
            for v in self.removed(env, rec):
                n = v['node']
                olds = [w for w in self.during(env, v['key'], rec)
                        if v['gone'] - min(w['node'].ctime, w['node'].mtime)
                        >= age - EPS]
                if not olds:
                    env.violate('too-early', '%s removed %r, which was only '
                                '%.3f s old' % (what, v['key'], v['gone'] -
                                                n.ctime))
                k.probes['expired'] += 1
            for v in env.data['versions']:
                n = v['node']
                if v['from'] <= rec['start'] and v['to'] > rec['end'] and \
                        matches(v['key'], rec['filter']) and \
                        rec['wall'] - max(n.ctime, n.mtime) > age + EPS:
                    env.violate('too-late', '%s left %r, which was %.3f s '
                                'old' % (what, v['key'],
                                         rec['wall'] - n.ctime))

    def removed(self, env, rec):
        """What an operation removed itself."""
        return [v for v in env.data['versions']
                if v.get('by') == rec['op'] and v['to'] < FAR]

    def certain(self, env, rec):
        return [x for x in sorted({v['key'] for v in env.data['versions']})
                if matches(x, rec['filter']) and
                not self.missing(env, x, rec) and not x.startswith('.')]

    def whole(self, env, rec, what, key, mid, content):
        if mid != key:
            env.violate('wrong-id', '%s: the message of %r has id %r'
                        % (what, key, mid))
        vs = self.during(env, key, rec)
        if not any(self.said(v) == content for v in vs):
            old = any(self.said(v) == content for v in env.data['versions']
                      if v['key'] == key)
            env.violate('outdated' if old else 'torn',
                        '%s gives for %r %.300r, not one of %.600r' % (
                            what, key, content, [self.said(v) for v in vs]))
        env.k.probes['messages read'] += 1
        if len(vs) > 1:
            env.k.probes['messages read during a replacement'] += 1

    def check(self, env):
        d = env.data
        env.k.probes['operations'] += len(d['history'])
        for rec in d['history']:
            self.judge(env, rec)
        t = env.k.spawn('final', lambda t: self.final(env, t))
        env.k.tasks = [t]
        env.k.main_sem.acquire(False)
        env.k.run()
        if env.k.violation is not None:
            raise env.k.violation

    def final(self, env, t):
        """Every corpus sees exactly the files that are there."""
        d = env.data
        k = env.k
        specs = {a['name']: a for a in env.plan['actors']}
        now = {v['key']: v for v in d['versions'] if v['to'] == FAR}
        for who, c in sorted(d['corpora'].items()):
            want = sorted(x for x in now if matches(
                x, specs[who]['filter']) and x in KEYS)
            res = k.call('final' + who, lambda: list(c.keys()))
            if res[0] == 'exc':
                env.violate('raised', 'keys() in the end: ' + describe(res))
            if sorted(res[1]) != want:
                env.violate('final', 'in the end %s shows %r, the files are '
                            '%r' % (who, sorted(res[1]), want))
            res = k.call('finalN' + who, len, c)
            if res != ('ok', len(want)):
                env.violate('final', 'in the end len() of %s is %s, the '
                            'files are %r' % (who, res[1], want))
            for x in want:
                res = k.call('final%s-%s' % (who, x), c.__getitem__, x)
                if res[0] == 'exc':
                    env.violate('raised', 'looking up %r in the end: %s'
                                % (x, describe(res)))
                if canon(res[1]) != self.said(now[x]):
                    env.violate('final', 'in the end %s has for %r %.300r, '
                                'the file %.300r' % (
                                    who, x, canon(res[1]),
                                    self.said(now[x])))


SCENARIO = C16()
