"""C10: corpus messages survive crashes and disk errors whole."""
from simkit.sim import Scenario, calls

from . import common, corpus
from .common import describe
from .corpus import DIR, KEYS, canon, canon_raw, matches

WRITES = ('add', 'remove', 'readd')


class C10(Scenario):
    prop = 'C10'
    quick_runs = 9000
    rule = ('A run is a random history of add/re-add/remove/lookup/reopen on '
            'a file corpus in which the process is killed, the power fails, '
            'or file-system calls fail (once or until the operation ends, '
            'the disk filling up in the middle of a write) at random calls; '
            'after every fault the corpus object and a newly opened corpus '
            'are compared with the states the history allows, and failed '
            'operations are repeated.')
    assumptions = (
        'A power loss may undo the latest directory changes, which are then '
        'lost in order (the directory itself is not synced).',
        'A killed process, or one that cannot remove the file either, may '
        'leave a temporary file behind as long as no corpus shows it.')

    def generate(self, rng):
        keys = rng.sample([k for k in KEYS if len(k) < 20],
                          rng.choice([1, 2, 4, 6]))
        cfg = {'kind': rng.choice(['file', 'file', 'file', 'expiry']),
               'filter': rng.choice(['*', '*', '*', '[!x]*']),
               'size': rng.choice([1, 2, 256])}
        ops, msgs = [], []

        def msg():
            msgs.append(corpus.gen_similar(rng, msgs))
            return len(msgs) - 1
        for i in range(rng.randint(2, rng.choice([4, 8, 14]))):
            oid = 'a%d' % i
            key = rng.choice(keys)
            r = rng.random()
            if r < 0.45:
                ops.append([oid, 'add', key, msg()])
            elif r < 0.55:
                ops.append([oid, 'readd', key, 0])
            elif r < 0.72:
                ops.append([oid, 'remove', key, rng.randrange(2)])
            elif r < 0.82:
                ops.append([oid, 'get', key, 0])
            elif r < 0.88:
                ops.append([oid, 'scan', key, 0])
            elif r < 0.93:
                ops.append([oid, 'unwritable', key, rng.randrange(3)])
            else:
                ops.append([oid, 'reopen', key, 0])
        return {'cfg': cfg, 'messages': msgs,
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        byop = {op[0]: op[1] for op in plan['actors'][0]['ops']}
        writes = {o for o, k in byop.items() if k in WRITES}
        reads = {o for o, k in byop.items()
                 if k in ('get', 'scan', 'reopen')}
        cs = calls(profile, ops=writes)
        rs = calls(profile, ops=reads)
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            r = rng.random()
            if rs and r < 0.15:
                op, io, name, path = rng.choice(rs)
                plan['faults'].append({'op': op, 'io': io, 'kind': 'err',
                                       'errno': rng.choice(['EIO', 'EACCES',
                                                            'EMFILE']),
                                       'sticky': rng.random() < 0.3})
                continue
            if not cs:
                return
            op, io, name, path = rng.choice(cs)
            if r < 0.5:
                f = {'op': op, 'io': io, 'kind': 'crash'}
                if name == 'write' and rng.random() < 0.7:
                    f['torn'] = rng.choice([0, 0.3, 0.7, 1])
            elif r < 0.56:
                f = {'op': op, 'io': io, 'kind': 'power',
                     'meta': rng.random(), 'data': rng.randrange(1 << 20)}
            else:
                f = {'op': op, 'io': io}
                q = rng.random()
                if name in ('write', 'close') and q < 0.35:
                    f.update(kind='full', keep=rng.choice([0, 0.3, 0.9]))
                elif name == 'write' and q < 0.45:
                    f.update(kind='short', keep=rng.random())
                elif name == 'open-w' and q < 0.3:
                    f.update(kind='full')
                else:
                    f.update(kind='err', errno=rng.choice(
                        ['EIO', 'EIO', 'EACCES', 'EMFILE', 'EROFS',
                         'ENOSPC', 'EDQUOT', 'EPERM']))
                    if name == 'write':
                        f['keep'] = rng.choice([0, 0, 0.5])
                if rng.random() < 0.35:
                    f['sticky'] = True
            plan['faults'].append(common.interrupt(rng, f))

    # ------------------------------------------------------------ execution
    def setup(self, env):
        d = env.data
        env.vfs.mkdirs(DIR)
        env.vfs.sync_all()
        d['state'] = {}          # key -> index of the message, for certain
        d['maybe'] = {}          # key -> allowed indices (None: absent)
        d['past'] = {}           # key -> every index it ever had
        d['held'] = {}
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a.env, 'start'))
        env.sigparts.append((sorted(env.cfg.items()), [
            o[1:] for o in env.plan['actors'][0]['ops']]))

    def new(self, env):
        from sbclassifier.corpora.filesystem import (ExpiryFileCorpus,
                                                     FileCorpus)
        if env.cfg['kind'] == 'expiry':
            return ExpiryFileCorpus(1e9, DIR, env.cfg['filter'],
                                    cache_size=env.cfg['size'])
        return FileCorpus(DIR, env.cfg['filter'], cache_size=env.cfg['size'])

    def open(self, env, opid):
        # (a fault may hit the opening itself, should that touch the disk)
        res = env.k.call(opid, self.new, env)
        if res[0] == 'exc':
            if not self.faulted(env, opid):
                env.violate('op-fails', 'opening the corpus: ' +
                            describe(res))
            res = env.k.call(opid + 'again', self.new, env)
            if res[0] == 'exc':
                env.violate('wedged', 'opening the corpus again: ' +
                            describe(res))
        env.data['c'] = res[1]

    def faulted(self, env, opid):
        return any(p[0] == opid for p in env.k.fault_points)

    def recover(self, a):
        env = a.env
        d = env.data
        d['held'] = {}
        opid = 'r%d' % a.crashes
        self.open(env, opid)
        # a crash may only have touched what was being changed
        self.settle(env, opid, d['c'], 'after a crash',
                    powered=env.k.stats['power losses'] !=
                    d.get('powered', 0))
        d['powered'] = env.k.stats['power losses']
        env.k.probes['states checked after a crash'] += 1

    def read_all(self, env, opid, c, what):
        """{key: canonical content} as the corpus shows it."""
        k = env.k

        def ok(res, doing):
            if res[0] == 'exc':
                env.violate('unreadable', '%s, %s: %s'
                            % (what, doing, describe(res)))
            return res[1]
        keys = ok(k.call(opid + 'K', lambda: list(c.keys())), 'keys()')
        n = ok(k.call(opid + 'N', len, c), 'len()')
        if n != len(keys) or len(set(keys)) != n:
            env.violate('disagree', '%s: len() is %d, keys() %r'
                        % (what, n, keys))
        out = {}
        for j, key in enumerate(sorted(keys)):
            msg = ok(k.call('%sG%d' % (opid, j), c.__getitem__, key),
                     'corpus[%r]' % key)
            if msg.id() != key:
                env.violate('wrong-id', '%s: %r has id %r'
                            % (what, key, msg.id()))
            out[key] = canon(msg)
        return out

    def settle(self, env, opid, c, what, powered=False):
        """What the corpus shows must be allowed; remember what it is."""
        d = env.data
        got = self.read_all(env, opid, c, what)
        allowed = {k: {m} for k, m in d['state'].items()}
        for key, ms in d['maybe'].items():
            allowed[key] = set(ms)
        if powered:
            for key, ms in d['past'].items():
                allowed[key] = set(ms) | {None}
        for key in got:
            if key not in allowed or allowed[key] == {None}:
                env.violate('extra', '%s the corpus shows %r, which is not '
                            'there' % (what, key))
        state = {}
        for key, ms in sorted(allowed.items()):
            if key not in got:
                if None not in ms:
                    env.violate('lost', '%s message %r has gone'
                                % (what, key))
                continue
            for m in ms:
                if m is not None and got[key] == canon_raw(
                        env.plan['messages'][m]):
                    state[key] = m
                    break
            else:
                env.violate('damaged', '%s message %r reads %.300r, not one '
                            'of %.600r' % (what, key, got[key], [
                                canon_raw(env.plan['messages'][m])
                                for m in ms if m is not None]))
        d['state'] = state
        d['maybe'] = {}

    def check_both(self, env, opid, what):
        """The corpus in use and a new one must show the same."""
        d = env.data
        self.settle(env, opid + 'b', d['c'], what)
        self.settle(env, opid + 'c', self.new_ok(env, opid + 'd'),
                    what + ', reopened,')

    def new_ok(self, env, opid):
        res = env.k.call(opid, self.new, env)
        if res[0] == 'exc':
            env.violate('wedged', 'opening the corpus: ' + describe(res))
        return res[1]

    def change(self, env, opid, key, new, fn, *args, what):
        """An operation that sets message `key` to `new`."""
        d = env.data
        old = d['state'].get(key)
        d['past'].setdefault(key, set()).update({old, new})
        d['maybe'][key] = {old, new}
        if env.k.stats['power losses'] == d.get('powered', 0):
            pass
        before = set(env.vfs.tree(DIR))
        res = env.k.call(opid, fn, *args)
        if res[0] == 'exc':
            if not self.faulted(env, opid):
                env.violate('op-fails', '%s of %r: %s'
                            % (what, key, describe(res)))
            self.left_behind(env, opid, before | {DIR + '/' + key}, what)
            env.k.probes['failed ' + what] += 1
            self.check_both(env, opid, 'after a failed %s' % what)
            return False
        d['maybe'] = {}
        if new is None:
            d['state'].pop(key, None)
        else:
            d['state'][key] = new
        if self.faulted(env, opid):
            env.k.probes['%s survived a fault' % what] += 1
            self.check_both(env, opid, 'after %s' % what)
        return True

    def left_behind(self, env, opid, allowed, what):
        faults = [f for f in env.plan['faults'] if f['op'] == opid]
        if any(f.get('sticky') for f in faults) or any(
                p[0] == opid and p[3] == 'unlink'
                for p in env.k.fault_points):
            # (what would remove it has failed as well)
            return
        left = set(env.vfs.tree(DIR)) - allowed
        if left:
            env.violate('left-behind', 'a failed %s left %s behind'
                        % (what, sorted(left)))

    def run_op(self, a, op):
        env = a.env
        d = env.data
        k = env.k
        opid, kind, key, m = op
        if not matches(key, env.cfg['filter']):
            return
        if kind in ('add', 'readd'):
            if kind == 'readd':
                if key not in d['held']:
                    return
                msg, m = d['held'][key]
            else:
                msg = corpus.build(env.plan['messages'][m], key)
            d['held'][key] = (msg, m)
            if not self.change(env, opid, key, m, d['c'].add_message, msg,
                               what='add'):
                self.change(env, opid + 'r', key, m, d['c'].add_message, msg,
                            what='repeated add')
        elif kind == 'remove':
            if key not in d['state']:
                return
            if m and key in d['held']:
                msg = d['held'][key][0]
            else:
                msg = self.fetch(env, opid + 'g', key)
            if not self.change(env, opid, key, None, d['c'].remove_message,
                               msg, what='remove'):
                if key in d['state']:
                    self.change(env, opid + 'r', key, None,
                                d['c'].remove_message, msg,
                                what='repeated remove')
            if key not in d['state']:
                d['held'].pop(key, None)
        elif kind in ('get', 'scan'):
            if kind == 'get':
                res = k.call(opid, d['c'].get, key)
            else:
                res = k.call(opid, lambda: list(d['c'].items()))
            if res[0] == 'exc' and not self.faulted(env, opid):
                env.violate('op-fails', '%s: %s' % (kind, describe(res)))
            if res[0] == 'ok' and kind == 'get' and res[1] is not None:
                if key not in d['state'] or canon(res[1]) != canon_raw(
                        env.plan['messages'][d['state'][key]]):
                    env.violate('damaged', 'lookup of %r gives %.300r'
                                % (key, canon(res[1])))
            if res[0] == 'ok' and self.unreadable(env, opid):
                gone = ({key} if res[1] is None else set()) \
                    if kind == 'get' else set(d['state']) - {
                        i for i, _ in res[1]}
                gone &= set(d['state'])
                if gone:
                    env.violate('hidden', '%s reports %s missing when the '
                                'file cannot be read' % (kind, sorted(gone)))
            self.settle(env, opid + 's', d['c'], 'after a lookup')
        elif kind == 'unwritable':
            self.op_unwritable(env, opid, key, m)
        elif kind == 'reopen':
            self.open(env, opid)
            d['held'] = {}
        if k.fault_points and not kind == 'reopen':
            self.settle(env, opid + 'z', d['c'], 'after ' + kind)

    def unreadable(self, env, opid):
        """Opening or reading a message has failed, and nothing else."""
        names = {p[3] for p in env.k.fault_points if p[0] == opid}
        return bool(names) and names <= {'open', 'read'}

    def fetch(self, env, opid, key):
        res = env.k.call(opid, env.data['c'].__getitem__, key)
        if res[0] == 'exc':
            env.violate('unreadable', 'corpus[%r]: %s' % (key, describe(res)))
        return res[1]

    def op_unwritable(self, env, opid, key, how):
        """A message that cannot be written to a file."""
        from sbclassifier import message
        d = env.data
        if how == 0:
            msg = message.from_string('Subject: x\n\n\u4e2d\u6587' +
                                      'y' * 9000, key)
        elif how == 1:
            msg = message.from_string('Subject: x\n\n' + 'y' * 20000, key)
            msg.set_payload(['not a message'])
            msg['Content-Type'] = 'multipart/mixed'
        else:
            msg = message.from_bytes(b'Subject: x\n\n' + b'y' * 20000, key)
            msg.set_payload(42)
        before = set(env.vfs.tree(DIR))
        res = env.k.call(opid, d['c'].add_message, msg)
        self.left_behind(env, opid, before | {DIR + '/' + key},
                         'unwritable add')
        if res[0] == 'ok':
            # it could be written after all: take it away again
            if how:
                env.violate('swallowed', 'adding an unwritable message '
                            'returned')
            self.settle_removed(env, opid, key, msg)
            return
        env.k.probes['unwritable messages'] += 1
        self.check_both(env, opid, 'after adding an unwritable message')

    def settle_removed(self, env, opid, key, msg):
        d = env.data
        env.k.call(opid + 'u', d['c'].remove_message, msg)
        d['state'].pop(key, None)
        self.check_both(env, opid + 'v', 'after removing a message')

    def check(self, env):
        pass


SCENARIO = C10()
