"""C01: a stored pickle database survives a crash at any instant."""
from simkit.sim import Scenario, calls
from simkit.kernel import SimCrash

from . import common
from .common import Model, observe, diff, describe

PATHS = ['/data/home/bayes.pck', 'bayes.pck', '/data/home/sub/db.pickle',
         './x y.pck']


def words_of(plan, m):
    if isinstance(m, int) and m < 0:
        return common.bulk_words(-m)
    return [common.dec(w) for w in plan['messages'][m]]


def gen_pickle_history(rng, nops, prefix='a', loads=True):
    """Ops on one PickleClassifier: only untrain what is trained."""
    ops = []
    trained = []
    for i in range(nops):
        r = rng.random()
        if r < 0.40 or not ops:
            m = rng.randrange(6) if rng.random() < 0.85 else \
                -rng.choice([1, 1, 1, 2, 2, 2, 2, 11])
            s = rng.random() < 0.5
            trained.append((m, s))
            ops.append(['%s%d' % (prefix, i), 'learn', m, s])
        elif r < 0.52 and trained:
            m, s = trained.pop(rng.randrange(len(trained)))
            ops.append(['%s%d' % (prefix, i), 'unlearn', m, s])
        elif r < 0.88 or not loads:
            ops.append(['%s%d' % (prefix, i), 'store'])
        elif r < 0.94:
            ops.append(['%s%d' % (prefix, i), 'load'])
        else:
            ops.append(['%s%d' % (prefix, i), 'open'])
    return ops


class C01(Scenario):
    prop = 'C01'
    quick_runs = 9000
    rule = ('A run is a random history of learn/unlearn/store/load/reopen on '
            'a PickleClassifier with one to three process kills (also in the '
            'middle of a write) or power losses placed inside the calls it '
            'makes, in a fifth of the runs beside failing file-system calls '
            'in store().')
    assumptions = (
        'A process crash keeps what system calls have written; a power loss '
        'keeps a prefix of the metadata changes since the last fsync and a '
        'prefix of each file\'s unsynced writes.',
        'The known finding about stale lock files is worked around by '
        'removing the lock, as an operator would.')

    def generate(self, rng):
        return {
            'cfg': {'path': rng.choice(PATHS)},
            'messages': common.gen_messages(rng, 6, common.PLAIN +
                                            common.ODD + common.BYTES),
            'actors': [{'name': 'A', 'ops': gen_pickle_history(
                rng, rng.randint(4, 14))}],
        }

    def place(self, rng, plan, profile):
        cs = calls(profile, skip_locks=False)
        stores = {op[0] for op in plan['actors'][0]['ops']
                  if op[1] == 'store'}
        inside = [c for c in cs if c[0] in stores]
        if inside and rng.random() < 0.2:
            # a store() that fails first
            es = [c for c in inside if c[2] in ('write', 'fsync', 'rename',
                                                'open-w', 'close')]
            for c in rng.sample(es, min(len(es), rng.choice([1, 1, 2]))):
                plan['faults'].append({'op': c[0], 'io': c[1], 'kind': 'err',
                                       'errno': rng.choice(['EIO',
                                                            'ENOSPC'])})
        for _ in range(rng.choice([1, 1, 2, 3])):
            pool = inside if inside and rng.random() < 0.85 else cs
            op, io, name, path = rng.choice(pool)
            if rng.random() < 0.3:
                writes = [c for c in pool if c[2] in ('write', 'rename',
                                                      'open-w', 'close')]
                if writes:
                    op, io, name, path = rng.choice(writes)
            f = {'op': op, 'io': io}
            if rng.random() < 0.6:
                f['kind'] = 'crash'
                if name == 'write' and rng.random() < 0.6:
                    f['torn'] = rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])
            else:
                f.update(kind='power', meta=rng.choice(
                    [0, 0.25, 0.5, 0.75, 1, 1]), data=rng.randrange(1000))
            plan['faults'].append(f)

    # ------------------------------------------------------------ execution
    @property
    def cls(self):
        from sbclassifier.classifiers.storage import PickleClassifier
        return PickleClassifier

    def setup(self, env):
        d = env.data
        d['handed'] = []             # every state handed to store()
        d['done'] = -1               # index of the last one that returned
        d['boot'] = False            # database existed at the last boot
        d['model'] = Model()
        d['c'] = None
        path = env.cfg['path']
        env.vfs.mkdirs('/data/home/sub')
        env.vfs.sync_all()
        d['abs'] = env.vfs.norm(path)
        d['words'] = sorted({w for m in range(6)
                             for w in words_of(env.plan, m)} |
                            {'never-seen'}, key=repr)
        for i in (1, 2, 11):
            d['words'] += common.bulk_words(i)[::50]
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))

    def obs(self, env, c):
        return observe(c, env.data['words'])

    def open(self, a, opid):
        env = a.env
        d = env.data
        res = env.k.call(opid, self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.violate('open-fails', 'opening the database: %s (%s)'
                        % (describe(res), opid))
        d['c'] = res[1]
        got = self.obs(env, d['c'])
        self.stored(env, got, 'opened database')

    def stored(self, env, got, what):
        """got must be what was stored last (or what stores that failed
        since were to store)."""
        d = env.data
        for i in range(len(d['handed']) - 1, d['done'], -1):
            if self.same(env, got, d['handed'][i]):
                d['done'] = i
        want = d['handed'][d['done']] if d['done'] >= 0 else Model()
        if not self.same(env, got, want):
            env.violate('wrong-state', what + ': ' + diff(
                got, self.cut(env, want)))
        d['model'] = want.copy()

    def cut(self, env, m):
        """A model restricted to the observed words."""
        n = Model(m)
        ws = set(env.data['words'])
        n.counts = {w: c for w, c in m.counts.items() if w in ws}
        return n

    def same(self, env, got, want):
        return got == self.cut(env, want)

    def run_op(self, a, op):
        env = a.env
        d = env.data
        opid, kind = op[0], op[1]
        k = env.k
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not self.trained(d['model'], ws, op[3]):
                return
            res = k.call(opid, getattr(d['c'], kind), list(ws), op[3])
            if res[0] == 'exc':
                env.violate('op-fails', '%s: %s' % (kind, describe(res)))
            d['model'].train(ws, op[3], 1 if kind == 'learn' else -1)
        elif kind == 'store':
            d['handed'].append(d['model'].copy())
            res = k.call(opid, d['c'].store)
            if res[0] == 'exc':
                if not any(f[0] == opid and f[2] == 'err'
                           for f in k.fault_points):
                    env.violate('op-fails', 'store: ' + describe(res))
                k.probes['store failed'] += 1
                return
            d['done'] = len(d['handed']) - 1
        elif kind == 'load':
            res = k.call(opid, d['c'].load)
            if res[0] == 'exc':
                env.violate('op-fails', 'load: ' + describe(res))
            self.stored(env, self.obs(env, d['c']), 'reloaded')
        elif kind == 'open':
            self.open(a, opid)

    @staticmethod
    def trained(model, ws, spam):
        """Would untraining this be legitimate?"""
        return model.trained(ws, spam)

    def recover(self, a):
        env = a.env
        d = env.data
        k = env.k
        power = k.stats['power losses'] != d.get('powers', 0)
        d['powers'] = k.stats['power losses']
        opid = 'r%d' % a.crashes
        res = k.call(opid, self.cls, env.cfg['path'])
        lock = d['abs'] + '.lock'
        if res[0] == 'exc' and type(res[1]).__name__ == 'LockTimeout' and \
                env.vfs.peek_stat(lock) is not None:
            # left by the process that was killed inside store() or load()
            env.finding('stale-lock', 'opening the database after a crash: '
                        + describe(res))
            k.probes['stale lock removed'] += 1
            env.vfs.poke_unlink(lock)
            res = k.call(opid + 'b', self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.violate('open-fails', 'opening the database after %s: %s'
                        % ('a power loss' if power else 'a crash',
                           describe(res)))
        d['c'] = res[1]
        got = self.obs(env, d['c'])
        if power:
            allowed = list(range(len(d['handed'])))
            if not d['boot']:
                allowed.append(-1)
        else:
            allowed = list(range(max(d['done'], 0), len(d['handed'])))
            if d['done'] < 0:
                allowed.append(-1)
        # which state is it? (the newest that fits)
        for i in sorted(allowed, reverse=True):
            want = d['handed'][i] if i >= 0 else Model()
            if self.same(env, got, want):
                break
        else:
            env.violate('wrong-state', 'after %s the database has %r; '
                        'states handed to store(): %s, last completed %d'
                        % ('a power loss' if power else 'a crash', got,
                           [self.cut(env, h) for h in d['handed']],
                           d['done']))
        env.sigparts.append(('recovered', power, len(d['handed']) - i))
        if power:
            k.probes['power loss: %s state' % (
                'newest' if i == len(d['handed']) - 1 else 'older')] += 1
            env.vfs.sync_all()
            d['boot'] = env.vfs.peek_stat(d['abs']) is not None
        # history restarts from what was found
        d['handed'] = d['handed'][:i + 1] if i >= 0 else []
        d['done'] = i
        d['model'] = want.copy()


SCENARIO = C01()
