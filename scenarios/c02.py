"""C02: failed pickle I/O never loses, blanks or wedges the database."""
import pickle

from simkit.images import Mod
from simkit.sim import Scenario, calls
from simkit.vfs import is_lock_path

from . import common
from .c01 import gen_pickle_history, words_of, PATHS, C01
from .common import Model, observe, diff, describe

DAMAGE = ['empty', 'half', 'less1', 'zeros', 'text', 'otherpickle',
          'dir', 'prefix', 'version']


class C02(Scenario):
    prop = 'C02'
    quick_runs = 9000
    rule = ('A run is a random history of learn/unlearn/store/load/reopen on '
            'a PickleClassifier and of pickle_write/pickle_read on a second '
            'file, in which I/O calls fail (once or until the operation '
            'ends), the disk fills up in the middle of a write, another '
            'process holds the lock, the file is damaged, or the value '
            'cannot be pickled, or a call is interrupted or out of memory; '
            'each failed call is repeated without the '
            'fault.')
    assumptions = (
        'Errors are not injected into the operations on the lock files '
        'themselves.',
        'If the call that would remove the temporary file fails too, that '
        'file may stay.')

    def generate(self, rng):
        ops = gen_pickle_history(rng, rng.randint(3, 10))
        extra = rng.randint(1, 5)
        for i in range(extra):
            at = rng.randint(1, len(ops))
            r = rng.random()
            oid = 'x%d' % i
            if r < 0.3:
                op = [oid, 'damage', rng.choice(DAMAGE), rng.random()]
            elif r < 0.5:
                op = [oid, 'hold', rng.choice(['store', 'open', 'load'])]
            elif r < 0.62:
                op = [oid, 'badvalue', rng.choice(['lambda', 'reduce',
                                                   'interrupt', 'exit',
                                                   'word'])]
            elif r < 0.8:
                op = [oid, 'write', rng.randrange(100)]
            else:
                op = [oid, 'read']
            ops.insert(at, op)
        return {'cfg': {'path': rng.choice(PATHS)},
                'messages': common.gen_messages(rng, 6, common.PLAIN +
                                                common.ODD + common.BYTES),
                'actors': [{'name': 'A', 'ops': ops}]}

    def place(self, rng, plan, profile):
        io_ops = {op[0] for op in plan['actors'][0]['ops']
                  if op[1] in ('store', 'load', 'open', 'write', 'read')}
        cs = calls(profile, {'open', 'open-w', 'read', 'write', 'fsync',
                             'rename', 'unlink', 'chmod', 'truncate',
                             'mkdir', 'close', 'link'}, ops=io_ops)
        cs = [c for c in cs if c[2] != 'link']
        stats = calls(profile, {'stat'}, ops=io_ops)
        if stats and rng.random() < 0.1:
            op, io, _, _ = rng.choice(stats)
            plan['faults'].append({'op': op, 'io': io, 'kind': 'nostat',
                                   'errno': rng.choice(['EIO', 'EACCES'])})
        if not cs:
            return
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            op, io, name, path = rng.choice(cs)
            r = rng.random()
            f = {'op': op, 'io': io}
            if name in ('write', 'close') and r < 0.3:
                # (data may only reach the disk when the file is closed)
                f.update(kind='full', keep=rng.choice([0, 0.3, 0.9]))
            elif name == 'write' and r < 0.4:
                f.update(kind='short', keep=rng.random())
            elif name == 'open-w' and r < 0.3:
                f.update(kind='full')
            else:
                f.update(kind='err', errno=rng.choice(
                    ['EIO', 'EIO', 'EACCES', 'EMFILE', 'EROFS', 'ENOSPC',
                     'EDQUOT']))
                if name == 'write':
                    f['keep'] = rng.choice([0, 0, 0.5])
            if rng.random() < 0.3:
                f['sticky'] = True
            plan['faults'].append(common.interrupt(rng, f))

    # ------------------------------------------------------------ execution
    sp = Mod('safepickle')

    @property
    def cls(self):
        from sbclassifier.classifiers.storage import PickleClassifier
        return PickleClassifier

    def setup(self, env):
        d = env.data
        env.vfs.mkdirs('/data/home/sub')
        env.vfs.sync_all()
        d['abs'] = env.vfs.norm(env.cfg['path'])
        d['file'] = '/data/home/sub/value.pck'
        d['model'] = Model()
        d['stored'] = [None]         # possible contents of the database file
        d['value'] = [None]          # possible contents of the value file
        d['c'] = None
        d['words'] = sorted({w for m in range(6)
                             for w in words_of(env.plan, m)} |
                            {'never-seen'}, key=repr)
        for i in (1, 2, 11):
            d['words'] += common.bulk_words(i)[::50]
        common.Actor(env, env.plan['actors'][0], self.run_op,
                     on_start=lambda a: self.op_open(a, 'start'))

    def obs(self, env, c):
        return observe(c, env.data['words'])

    cut = C01.cut

    def guarded(self, a, opid, what, fn, *args):
        """Run one operation; whatever happens, nothing may be left behind.
        Returns its result."""
        env = a.env
        before = set(env.vfs.tree())
        tmp_before = set(env.vfs.tree('/tmp'))
        nfired = sum(env.k.fired.values())
        npoints = len(env.k.fault_points)
        res = env.k.call(opid, fn, *args)
        faulted = sum(env.k.fired.values()) > nfired
        after = set(env.vfs.tree())
        names = [n for _, _, _, n in env.k.fault_points[npoints:]]
        sticky = any(f.get('sticky') for f in env.plan['faults']
                     if f['op'] == opid)
        extra = (after - before) | (set(env.vfs.tree('/tmp')) - tmp_before)
        extra -= {env.data['abs'], env.data['file']}
        if 'unlink' in names or sticky:
            extra = {p for p in extra if p.endswith('.lock') or
                     is_lock_path(p)}
        if extra:
            env.violate('left-behind', '%s %s and left %s behind'
                        % (what, describe(res), sorted(extra)))
        if res[0] == 'exc' and not faulted:
            env.violate('op-fails', '%s without any fault: %s'
                        % (what, describe(res)))
        env.sigparts.append((what, res[0], faulted))
        return res

    def probe_disk(self, env, which, allowed, what):
        """The content of the file must be one of `allowed`."""
        path = env.data[which]
        data = env.vfs.peek(path)
        if data is None:
            if None not in allowed:
                env.violate('lost', 'after %s the file is gone' % what)
            return None
        try:
            v = pickle.loads(data)
        except Exception as e:
            env.violate('corrupt', 'after %s the file cannot be read: %r'
                        % (what, e))
        if which == 'abs':
            got = self.obs(env, v)
            for m in allowed:
                if m is not None and got == self.cut(env, m):
                    return m
            env.violate('corrupt', 'after %s the file holds %r, not one of '
                        '%r' % (what, got, allowed))
        if v not in [x for x in allowed if x is not None]:
            env.violate('corrupt', 'after %s the file holds %r'
                        % (what, v))
        return v

    def memory(self, env, what):
        got = self.obs(env, env.data['c'])
        want = self.cut(env, env.data['model'])
        if got != want:
            env.violate('memory-changed', 'after %s: %s'
                        % (what, diff(got, want)))

    def op_open(self, a, opid):
        env = a.env
        d = env.data
        old = d['c']
        res = self.guarded(a, opid, 'open', self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.k.probes['open failed'] += 1
            self.probe_disk(env, 'abs', d['stored'], 'a failed open')
            res = self.guarded(a, opid + 'r', 'open again', self.cls,
                               env.cfg['path'])
        d['c'] = res[1]
        got = self.obs(env, d['c'])
        for m in d['stored']:
            want = m or Model()
            if got == self.cut(env, want):
                break
        else:
            env.violate('wrong-state', 'open gives %r; stored: %r'
                        % (got, d['stored']))
        d['model'] = want.copy()

    def run_op(self, a, op):
        env = a.env
        d = env.data
        opid, kind = op[0], op[1]
        k = env.k
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not C01.trained(d['model'], ws, op[3]):
                return
            res = k.call(opid, getattr(d['c'], kind), list(ws), op[3])
            if res[0] == 'exc':
                env.violate('op-fails', '%s: %s' % (kind, describe(res)))
            d['model'].train(ws, op[3], 1 if kind == 'learn' else -1)
        elif kind == 'store':
            self.op_store(a, opid)
        elif kind == 'load':
            res = self.guarded(a, opid, 'load', d['c'].load)
            if res[0] == 'exc':
                k.probes['load failed'] += 1
                self.memory(env, 'a failed load')
                self.probe_disk(env, 'abs', d['stored'], 'a failed load')
                res = self.guarded(a, opid + 'r', 'load again', d['c'].load)
            got = self.obs(env, d['c'])
            for m in d['stored']:
                if got == self.cut(env, m or Model()):
                    d['model'] = (m or Model()).copy()
                    break
            else:
                env.violate('wrong-state', 'load gives %r; stored: %r'
                            % (got, d['stored']))
        elif kind == 'open':
            self.op_open(a, opid)
        elif kind == 'write':
            value = {'v': op[2], 'pad': 'y' * (op[2] * 150)}
            res = self.guarded(a, opid, 'write', self.sp.pickle_write,
                               d['file'], value)
            d['value'] = d['value'] + [value] if res[0] == 'exc' else [value]
            self.probe_disk(env, 'file', d['value'], 'a write')
            if res[0] == 'exc':
                k.probes['write failed'] += 1
                self.guarded(a, opid + 'r', 'write again',
                             self.sp.pickle_write, d['file'], value)
                d['value'] = [value]
                self.probe_disk(env, 'file', d['value'], 'the repeated write')
        elif kind == 'read':
            if d['value'] == [None]:
                return
            res = self.guarded(a, opid, 'read', self.sp.pickle_read,
                               d['file'])
            if res[0] == 'exc':
                k.probes['read failed'] += 1
                res = self.guarded(a, opid + 'r', 'read again',
                                   self.sp.pickle_read, d['file'])
            if res[1] not in [v for v in d['value'] if v is not None]:
                env.violate('wrong-state', 'read gives %r' % (res[1],))
        elif kind == 'damage':
            self.op_damage(a, opid, op[2], op[3])
        elif kind == 'hold':
            self.op_hold(a, opid, op[2])
        elif kind == 'badvalue':
            self.op_badvalue(a, opid, op[2])

    def op_store(self, a, opid):
        env = a.env
        d = env.data
        res = self.guarded(a, opid, 'store', d['c'].store)
        self.memory(env, 'store')
        new = d['model'].copy()
        if res[0] == 'exc':
            env.k.probes['store failed'] += 1
            d['stored'] = d['stored'] + [new]
            self.probe_disk(env, 'abs', d['stored'], 'a failed store')
            self.guarded(a, opid + 'r', 'store again', d['c'].store)
            self.memory(env, 'the repeated store')
        d['stored'] = [new]
        self.probe_disk(env, 'abs', d['stored'], 'store')

    def op_damage(self, a, opid, how, frac):
        """Somebody damages the file: opening it must fail loudly, and work
        again when it has been restored."""
        env = a.env
        d = env.data
        good = env.vfs.peek(d['abs'])
        if good is None or env.vfs.peek_stat(d['abs']).isdir():
            return
        if how == 'empty':
            bad = b''
        elif how == 'half':
            bad = good[:int(len(good) * frac)]
        elif how == 'less1':
            bad = good[:-1]
        elif how == 'zeros':
            bad = bytes(len(good))
        elif how == 'text':
            bad = b'From: somebody\n\nnot a database\n'
        elif how == 'otherpickle':
            bad = pickle.dumps([{'a': 1}, (1, 2, 3), 'text', 42][
                int(frac * 4) % 4])
        elif how == 'prefix':
            bad = b'\x80\x05garbage' + good[int(len(good) * frac):]
        elif how == 'version':      # written by a later release
            bad = good.replace(b'(K\x05}', b'(K\x06}')
        if how == 'dir':
            env.vfs.poke_unlink(d['abs'])
            env.vfs.mkdirs(d['abs'])
        else:
            if bad == good:
                return
            env.vfs.poke(d['abs'], bad)
        before = set(env.vfs.tree())
        for what, fn, args in (('open', self.cls, (env.cfg['path'],)),
                               ('load', d['c'].load, ())):
            res = env.k.call(opid + what, fn, *args)
            if res[0] == 'ok':
                got = self.obs(env, res[1] if what == 'open' else d['c'])
                env.violate('damage-hidden', 'a damaged database (%s) %ss as '
                            '%r' % (how, what, got))
            self.memory(env, 'loading a damaged file')
            left = set(env.vfs.tree()) - before
            if left:
                env.violate('left-behind', '%s of a damaged file left %s'
                            % (what, sorted(left)))
        if how == 'dir':
            env.vfs.poke_unlink(d['abs'])
        elif env.vfs.peek(d['abs']) != bad:
            env.violate('corrupt', 'the damaged file was changed')
        env.vfs.poke(d['abs'], good)
        res = env.k.call(opid + 'again', self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.violate('wedged', 'after restoring the file: ' +
                        describe(res))
        got = self.obs(env, res[1])
        if not any(got == self.cut(env, m) for m in d['stored'] if m):
            env.violate('wrong-state', 'restored file gives %r' % got)
        env.k.probes['damage ' + how] += 1

    def op_hold(self, a, opid, what):
        """Another program holds the lock all the time."""
        env = a.env
        d = env.data
        lock = d['abs'] + '.lock'
        env.vfs.poke(lock, b'')
        before = {p: v for p, v in env.vfs.tree().items()}
        fn, args = {'store': (d['c'].store, ()), 'load': (d['c'].load, ()),
                    'open': (self.cls, (env.cfg['path'],))}[what]
        t0 = env.k.now
        res = env.k.call(opid, fn, *args)
        if res[0] == 'ok':
            if what == 'open' and d['stored'] == [None]:
                pass
            env.violate('lock-ignored', '%s returned although the database '
                        'is locked' % what)
        if env.k.now - t0 > 120:
            env.violate('hang', '%s waited %.0f s for the lock'
                        % (what, env.k.now - t0))
        self.memory(env, what + ' of a locked database')
        after = env.vfs.tree()
        if after != before:
            env.violate('left-behind', '%s of a locked database changed %s'
                        % (what, sorted(p for p in set(before) | set(after)
                                        if before.get(p) != after.get(p))))
        env.vfs.poke_unlink(lock)
        env.k.probes['lock held'] += 1
        if what == 'store':
            self.op_store(a, opid + 's')

    def op_badvalue(self, a, opid, how):
        env = a.env
        d = env.data
        if how == 'word':
            # a model that cannot be pickled
            class Local(str):
                pass
            before = env.vfs.tree()
            ws = [Local('odd')]
            env.k.call(opid + 'l', d['c'].learn, ws, True)
            res = env.k.call(opid, d['c'].store)
            env.k.call(opid + 'u', d['c'].unlearn, ws, True)
            what = 'storing an unpicklable model'
        else:
            class Bad:
                def __reduce__(self):
                    raise {'interrupt': KeyboardInterrupt,
                           'exit': SystemExit}.get(how, RuntimeError)(
                               'cannot be pickled')
            value = ['z' * 9000] * 3 + [(lambda: 0) if how == 'lambda'
                                        else Bad()]
            before = env.vfs.tree()
            res = env.k.call(opid, self.sp.pickle_write, d['file'], value)
            what = 'writing an unpicklable value'
        if res[0] == 'ok':
            env.violate('swallowed', what + ' returned')
        after = env.vfs.tree()
        if after != before or env.vfs.tree('/tmp'):
            env.violate('left-behind', '%s changed %s' % (what, sorted(
                p for p in set(before) | set(after)
                if before.get(p) != after.get(p)) +
                sorted(env.vfs.tree('/tmp'))))
        self.memory(env, what)
        env.k.probes['bad value'] += 1


SCENARIO = C02()
