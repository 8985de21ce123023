"""C13: a CDB database is replaced whole or not at all."""
import struct

from simkit.images import Mod
from simkit.sim import Scenario, calls, place_preempts

from . import common
from .c01 import gen_pickle_history, words_of
from .common import Model, describe, diff, observe

PATHS = ['/data/home/bayes.cdb', 'bayes.cdb', './x y.cdb']


def djb(key):
    """Bernstein's hash."""
    h = 5381
    for c in key:
        h = ((h * 33) & 0xffffffff) ^ c
    return h


def cdb_find(data, key):
    """All values of a key in a cdb file, as any cdb reader finds them."""
    h = djb(key)
    pos, slots = struct.unpack_from('<LL', data, (h & 255) * 8)
    out = []
    for i in range(slots):
        at = pos + ((h >> 8) + i) % slots * 8
        h2, rec = struct.unpack_from('<LL', data, at)
        if not rec:
            break
        if h2 == h:
            kl, vl = struct.unpack_from('<LL', data, rec)
            if data[rec + 8:rec + 8 + kl] == key:
                out.append(bytes(data[rec + 8 + kl:rec + 8 + kl + vl]))
    return out


def cdb_bytes(items):
    """A cdb file."""
    body, tables = b'', [[] for _ in range(256)]
    for key, value in items:
        h = djb(key)
        tables[h & 255].append((h, 2048 + len(body)))
        body += struct.pack('<LL', len(key), len(value)) + key + value
    head = b''
    for t in tables:
        n = 2 * len(t)
        head += struct.pack('<LL', 2048 + len(body), n)
        slots = [(0, 0)] * n
        for h, at in t:
            i = (h >> 8) % n
            while slots[i][1]:
                i = (i + 1) % n
            slots[i] = h, at
        body += b''.join(struct.pack('<LL', *x) for x in slots)
    return head + body


def cdb_flaw(data):
    """What is wrong with the structure of a cdb file, or None."""
    tables = [struct.unpack_from('<LL', data, i * 8) for i in range(256)]
    end = min([pos for pos, n in tables if n], default=2048)
    records, at = {}, 2048
    while at < end:
        kl, vl = struct.unpack_from('<LL', data, at)
        records[at] = djb(data[at + 8:at + 8 + kl])
        at += 8 + kl + vl
    if at != end:
        return 'the records do not end where the tables begin'
    seen = []
    for i, (pos, n) in enumerate(tables):
        if n and pos + 8 * n > len(data):
            return 'table %d is not in the file' % i
        for j in range(n):
            h, rec = struct.unpack_from('<LL', data, pos + 8 * j)
            if not rec:
                continue
            if records.get(rec) != h or h & 255 != i:
                return 'slot %d of table %d holds %d, %d' % (j, i, h, rec)
            seen.append(rec)
    if sorted(seen) != sorted(records):
        return 'the tables do not hold every record once'


def _collisions():
    """Words whose hashes are equal, or share a table or a slot."""
    full, table = {}, {}
    for a in range(48, 123):
        for b in range(32, 127):
            w = 'k' + chr(a) + chr(b)
            full.setdefault(djb(w.encode()), []).append(w)
    equal = [g for g in full.values() if len(g) > 2][:20]
    for n in range(3000):
        w = 'word%d' % n
        table.setdefault(djb(w.encode()) & 255, []).append(w)
    # the last slots of a table: probing wraps around
    last = []
    for n in range(200000):
        w = 'z%d' % n
        h = djb(w.encode())
        if h & 255 == 7 and (h >> 8) % 8 == 7:
            last.append(w)
            if len(last) == 8:
                break
    return equal, list(table.values()), last


def same_hash():
    """512 words with the same hash: from any state of the hash, there are two
    pairs of characters that lead to the same next state."""
    words, h = ['k'], 5381 * 33 & 0xffffffff ^ ord('k')
    while len(words) < 512:
        seen = {}
        for a in range(48, 123):
            for b in range(48, 123):
                n = (h * 33 & 0xffffffff ^ a) * 33 & 0xffffffff ^ b
                seen.setdefault(n, []).append(chr(a) + chr(b))
        h, ends = next((n, g) for n, g in seen.items() if len(g) > 1)
        words = [w + e for w in words for e in ends[:2]]
    return words


_made = []


def collisions():
    if not _made:
        _made.append(_collisions())
    return _made[0]


class C13(Scenario):
    prop = 'C13'
    quick_runs = 8000
    rule = ('A run is a random history of learn/unlearn/store/load/reopen on '
            'a CDBClassifier, over vocabularies with equal hashes, full hash '
            'tables and up to thousands of words, with up to three kills, '
            'power losses or failing file-system calls, in some runs beside '
            'a second process that opens the database again and again; the '
            'file is also read with the Cdb class and with an independent '
            'reader.')
    assumptions = (
        'A process crash keeps what system calls have written; a power loss '
        'keeps a prefix of the metadata changes since the last fsync and a '
        'prefix of each file\'s unsynced writes.',
        'If the call that would remove the temporary file fails too, that '
        'file may stay.')

    def generate(self, rng):
        r = rng.random()
        equal, tables, last = collisions()
        if r < 0.3:
            vocab = common.PLAIN + common.ODD + common.BYTES
            if rng.random() < 0.1:
                vocab = vocab[::3] + common.LONG
        elif r < 0.55:
            vocab = [w for g in rng.sample(equal, 3) for w in g] + ['hello']
        elif r < 0.75:
            vocab = rng.choice(tables)[:10] + common.BYTES
        elif r < 0.85:
            vocab = last + ['saved state', '']
        else:
            vocab = [chr(rng.randint(33, 0x2fff)) * rng.randint(1, 3)
                     for _ in range(12)] + common.BYTES
        size = rng.choice([4, 12])
        if rng.random() < 0.03:
            # more words of the same hash than there are hash tables
            vocab = same_hash()
            size = rng.choice([40, 300])
        ops = gen_pickle_history(rng, rng.randint(3, 12))
        for i in range(rng.choice([0, 0, 1, 1])):
            ops.insert(rng.randint(1, len(ops)),
                       ['x%d' % i, 'raw', rng.randrange(1 << 30)])
        for i in range(rng.choice([0, 0, 0, 1, 2])):
            ops.insert(rng.randint(1, len(ops)),
                       ['d%d' % i, 'damage', rng.choice(
                           ['empty', 'cut', 'cut', 'end', 'end', 'text',
                            'zero', 'other', 'other']),
                        rng.randrange(1 << 20)])
        actors = [{'name': 'A', 'ops': ops}]
        reader = rng.random() < 0.3
        if reader:
            actors.append({'name': 'R', 'ops': [
                ['r%d' % i, 'read'] for i in range(rng.randint(1, 6))]})
        return {'cfg': {'path': rng.choice(PATHS), 'reader': reader},
                'messages': common.gen_messages(rng, 6, vocab, size),
                'actors': actors}

    def place(self, rng, plan, profile):
        kinds = {op[0]: op[1] for op in plan['actors'][0]['ops']}
        cs = calls(profile, ops={o for o, k in kinds.items()
                                 if k in ('store', 'load', 'open')})
        inside = [c for c in cs if kinds[c[0]] == 'store']
        writes = [c for c in inside if c[2] in ('write', 'rename', 'open-w',
                                                'close', 'fsync')]
        if plan['cfg']['reader']:
            place_preempts(rng, plan, profile, rng.choice([2, 5, 10]))
        if rng.random() < 0.08 and not plan['cfg']['reader']:
            # an error that must not be ignored, as is seen after a power loss
            at = rng.choice([i for i, c in enumerate(cs)
                             if c in writes and c[2] != 'open-w'])
            plan['faults'].append({'op': cs[at][0], 'io': cs[at][1],
                                   'kind': 'err', 'errno': 'EIO'})
            op, io, _, _ = rng.choice([c for c in cs[at:] if c[0] != cs[at][0]])
            plan['faults'].append({'op': op, 'io': io, 'kind': 'power',
                                   'meta': rng.choice([0.75, 1, 1]),
                                   'data': rng.randrange(1000)})
        looks = [c for c in cs if kinds[c[0]] != 'store']
        if looks and rng.random() < 0.12:
            # the file cannot be looked at just now
            name = rng.choice(sorted({c[2] for c in looks}))
            op, io, _, _ = rng.choice([c for c in looks if c[2] == name])
            plan['faults'].append({
                'op': op, 'io': io, 'errno': rng.choice(['EIO', 'EACCES']),
                'kind': 'nostat' if name == 'stat' else 'err'})
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            pool = (writes if rng.random() < 0.5 else inside) or cs
            if rng.random() < 0.1:
                pool = cs
            if not pool:
                return
            op, io, name, path = rng.choice(pool)
            f = {'op': op, 'io': io}
            r = rng.random()
            if r < 0.35:
                f['kind'] = 'crash'
                if name == 'write' and rng.random() < 0.6:
                    f['torn'] = rng.choice([0.0, 0.3, 0.5, 0.9, 1.0])
            elif r < 0.6 and not plan['cfg']['reader']:
                f.update(kind='power', meta=rng.choice(
                    [0, 0.25, 0.5, 0.75, 1, 1]), data=rng.randrange(1000))
            else:
                q = rng.random()
                if name in ('write', 'close') and q < 0.3:
                    f.update(kind='full', keep=rng.choice([0, 0.3, 0.9]))
                elif name == 'write' and q < 0.4:
                    f.update(kind='short', keep=rng.random())
                else:
                    f.update(kind='err', errno=rng.choice(
                        ['EIO', 'EIO', 'EACCES', 'EMFILE', 'EROFS',
                         'ENOSPC']))
                    if name == 'write':
                        f['keep'] = rng.choice([0, 0, 0.5])
                if rng.random() < 0.3:
                    f['sticky'] = True
            plan['faults'].append(common.interrupt(rng, f))

    # ------------------------------------------------------------ execution
    cdb = Mod('cdb')

    @property
    def cls(self):
        from sbclassifier.classifiers.storage import CDBClassifier
        return CDBClassifier

    def setup(self, env):
        d = env.data
        d['handed'] = []             # every state handed to store()
        d['ok'] = {-1}               # which of them the file may hold
        d['boot'] = False
        d['model'] = Model()
        env.vfs.mkdirs('/data/home/sub')
        env.vfs.sync_all()
        d['abs'] = env.vfs.norm(env.cfg['path'])
        used = {op[2] for op in env.plan['actors'][0]['ops']
                if op[1] in ('learn', 'unlearn') and op[2] < 0}
        d['words'] = sorted(
            {w for m in range(6) for w in words_of(env.plan, m)} |
            {w for m in used for w in words_of(env.plan, m)[::50]} |
            {'never-seen'}, key=repr)
        common.Actor(env, env.plan['actors'][0], self.run_op, self.recover,
                     on_start=lambda a: self.open(a, 'start'))
        if env.cfg['reader']:
            common.Actor(env, env.plan['actors'][1], self.run_read)
        env.sigparts.append([o[1:] for o in env.plan['actors'][0]['ops']])

    def state(self, env, i):
        """The model of one state, cut to the words looked at."""
        m = env.data['handed'][i] if i >= 0 else Model()
        n = Model(m)
        ws = set(env.data['words'])
        n.counts = {w: c for w, c in m.counts.items() if w in ws}
        return n

    def which(self, env, got, allowed):
        for i in sorted(allowed, reverse=True):
            if got == self.state(env, i):
                return i
        return None

    def faulted(self, env, opid):
        return any(p[0] == opid for p in env.k.fault_points)

    def open(self, a, opid, what='opening the database'):
        env = a.env
        d = env.data
        res = env.k.call(opid, self.cls, env.cfg['path'])
        if res[0] == 'exc' and self.faulted(env, opid):
            env.k.probes['open failed'] += 1
            res = env.k.call(opid + 'again', self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.violate('open-fails', '%s: %s' % (what, describe(res)))
        d['c'] = res[1]
        got = observe(d['c'], d['words'])
        i = self.which(env, got, d['ok'])
        if i is None:
            env.violate('wrong-state', '%s gives %r; allowed are %s' % (
                what, got, [self.state(env, j) for j in sorted(d['ok'])]))
        d['ok'] = {i}
        d['model'] = (d['handed'][i] if i >= 0 else Model()).copy()

    def run_op(self, a, op):
        env = a.env
        d = env.data
        opid, kind = op[0], op[1]
        k = env.k
        if kind in ('learn', 'unlearn'):
            ws = words_of(env.plan, op[2])
            if kind == 'unlearn' and not d['model'].trained(ws, op[3]):
                return
            res = k.call(opid, getattr(d['c'], kind), list(ws), op[3])
            if res[0] == 'exc':
                env.violate('op-fails', '%s: %s' % (kind, describe(res)))
            d['model'].train(ws, op[3], 1 if kind == 'learn' else -1)
        elif kind == 'store':
            self.op_store(env, opid)
        elif kind == 'load':
            before = d['model'].copy()
            res = k.call(opid, d['c'].load)
            if res[0] == 'exc':
                if not self.faulted(env, opid):
                    env.violate('op-fails', 'load: ' + describe(res))
                k.probes['load failed'] += 1
                self.memory(env, before, 'a failed load')
                res = k.call(opid + 'again', d['c'].load)
                if res[0] == 'exc':
                    env.violate('not-retryable', 'the repeated load: ' +
                                describe(res))
            got = observe(d['c'], d['words'])
            i = self.which(env, got, d['ok'])
            if i is None:
                if d['ok'] == {-1} and env.vfs.peek(d['abs']) is None:
                    i = -1
                else:
                    env.violate('wrong-state', 'load gives %r; allowed are '
                                '%s' % (got, [self.state(env, j)
                                              for j in sorted(d['ok'])]))
            d['model'] = (d['handed'][i] if i >= 0 else Model()).copy()
        elif kind == 'open':
            self.open(a, opid)
        elif kind == 'raw':
            self.op_raw(env, opid, op[2])
        elif kind == 'damage':
            self.op_damage(env, opid, op[2], op[3])

    def memory(self, env, want, what):
        got = observe(env.data['c'], env.data['words'])
        ws = set(env.data['words'])
        cut = Model(want)
        cut.counts = {w: c for w, c in want.counts.items() if w in ws}
        if got != cut:
            env.violate('memory-changed', 'after %s: %s'
                        % (what, diff(got, cut)))

    def op_store(self, env, opid):
        d = env.data
        k = env.k
        d['handed'].append(d['model'].copy())
        n = len(d['handed']) - 1
        d['ok'].add(n)
        before = set(env.vfs.tree())
        res = k.call(opid, d['c'].store)
        self.memory(env, d['model'], 'store')
        if res[0] == 'exc':
            if not self.faulted(env, opid):
                env.violate('op-fails', 'store: ' + describe(res))
            k.probes['store failed'] += 1
            extra = set(env.vfs.tree()) - before - {d['abs']}
            names = [p[3] for p in k.fault_points if p[0] == opid]
            sticky = any(f.get('sticky') for f in env.plan['faults']
                         if f['op'] == opid)
            if extra and 'unlink' not in names and not sticky:
                env.violate('left-behind', 'a failed store left %s'
                            % sorted(extra))
            self.disk(env, opid + 'd', 'a failed store')
            res = k.call(opid + 'again', d['c'].store)
            if res[0] == 'exc':
                env.violate('not-retryable', 'the repeated store: ' +
                            describe(res))
            self.memory(env, d['model'], 'the repeated store')
        d['ok'] = {n}
        self.disk(env, opid + 'f', 'store')
        self.file(env, opid)

    def op_damage(self, env, opid, how, n):
        """A damaged file, or something else, is never taken for a (new)
        database; the right one is back afterwards."""
        d = env.data
        k = env.k
        if env.cfg['reader']:
            return
        data = env.vfs.peek(d['abs'])
        if data is None:
            return
        end = struct.unpack_from('<L', data)[0]
        if how == 'other':
            # some other cdb
            bad = cdb_bytes([(b'%d' % i, b'%d' % i) for i in range(n % 3)] if
                            n & 64 else
                            [(b'%d' % i, b'1,2') for i in range(n % 3)])
        else:
            bad = {'empty': b'', 'cut': data[:n % len(data)],
                   'end': data[:max(0, end - 1 - n % 12)],
                   'text': b'hello ' * (n % 999), 'zero': bytes(len(data))
                   }[how]
        env.vfs.poke(d['abs'], bad)
        k.fire('damaged')
        before = d['model'].copy()
        want = {i: self.state(env, i) for i in d['ok']}
        for what, call in (('opening', lambda: self.cls(env.cfg['path'])),
                           ('load', d['c'].load)):
            res = k.call(opid + what[0], call)
            if res[0] == 'exc':
                k.probes['damage refused'] += 1
                if what == 'load':
                    self.memory(env, before, 'load of a damaged file')
                continue
            got = observe(d['c'] if what == 'load' else res[1], d['words'])
            # (only the hash tables may be damaged)
            if len(bad) < end or how in ('text', 'zero', 'other') or \
                    got not in want.values():
                env.violate('damage-unseen', '%s of a database that has been '
                            'damaged (%s) gives %r' % (what, how, got))
            k.probes['damage harmless'] += 1
            if what == 'load':
                i = self.which(env, got, d['ok'])
                d['model'] = (d['handed'][i] if i >= 0 else Model()).copy()
        env.vfs.poke(d['abs'], data)

    def disk(self, env, opid, what):
        """The database as another process would find it now."""
        d = env.data
        res = env.k.call(opid, self.cls, env.cfg['path'])
        if res[0] == 'exc':
            env.violate('open-fails', 'opening the database after %s: %s'
                        % (what, describe(res)))
        got = observe(res[1], d['words'])
        if self.which(env, got, d['ok']) is None:
            env.violate('wrong-state', 'after %s the database has %r; '
                        'allowed are %s' % (
                            what, got, [self.state(env, j)
                                        for j in sorted(d['ok'])]))

    def file(self, env, opid):
        """Look the file up with Cdb and with another reader."""
        d = env.data
        data = env.vfs.peek(d['abs'])

        def read():
            with open(env.cfg['path'], 'rb') as fp:
                db = self.cdb.Cdb(fp)
                items = list(db.items())
                found = [(key, value, db[key], db.get(key))
                         for key, value in items]
                missing = [db.get(x, 'nothing') for x in
                           ('never-seen', b'never-seen', 'k' * 300)]
                keys = list(db.keys())
                values = list(db.values())
                db.close()
            return items, found, missing, keys, values
        res = env.k.call(opid + 'F', read)
        if res[0] == 'exc':
            env.violate('unreadable', 'reading the file with Cdb: ' +
                        describe(res))
        items, found, missing, keys, values = res[1]
        if [k for k, _ in items] != keys or [v for _, v in items] != values:
            env.violate('iteration', 'keys(), values() and items() disagree')
        if len(set(keys)) != len(keys) or \
                len(keys) != len(d['model'].counts) + 1:
            env.violate('iteration', 'the file holds %d keys (%d different) '
                        'for %d words'
                        % (len(keys), len(set(keys)),
                           len(d['model'].counts)))
        flaw = cdb_flaw(data)
        if flaw:
            env.violate('format', flaw)
        for key, value, one, two in found:
            if one != value or two != value:
                env.violate('lookup', '%r is %r by iteration, but %r, %r by '
                            'lookup' % (key, value, one, two))
            other = cdb_find(data, bytes(key))
            if other != [value]:
                env.violate('format', 'another cdb reader finds %r for %r '
                            'instead of %r' % (other, key, value))
        if missing != ['nothing'] * 3:
            env.violate('lookup', 'words that are not in the file are found '
                        'as %r' % missing)
        env.k.probes['keys looked up'] += len(keys)

    def op_raw(self, env, opid, seed):
        """cdb_make and Cdb by themselves: repeated, empty, binary keys."""
        import random
        rng = random.Random(seed)
        equal, tables, last = collisions()
        pool = ['', 'a', 'b', '\u4e2d', b'\xff\0', 'x' * 300] + \
            rng.choice(equal) + rng.choice(tables)[:6] + last
        pool = rng.sample(pool, rng.randint(1, len(pool)))
        items = [(rng.choice(pool),
                  rng.choice([b'', b'1', b'22', b'\0\xff', b'v' * 99]))
                 for _ in range(rng.choice([0, 1, 2, 5, 40]))]

        def enc(x):
            return x.encode('utf-8') if isinstance(x, str) else x
        want = {}
        for key, value in items:
            want.setdefault(enc(key), []).append(value)

        def run():
            with open('/data/home/raw.cdb', 'wb') as fp:
                self.cdb.cdb_make(fp, iter(items))
            out = {}
            with open('/data/home/raw.cdb', 'rb') as fp:
                db = self.cdb.Cdb(fp)
                order = list(pool)
                rng.shuffle(order)
                for key in order + order[:3]:
                    vs = []
                    db.findstart()
                    while len(vs) < 100:
                        try:
                            vs.append(db.findnext(key))
                        except KeyError:
                            break
                    if rng.random() < 0.5:
                        db.get(rng.choice(order))
                    out[enc(key)] = (db.get(key), vs)
                its = list(db.iteritems())
                db.close()
            return out, its
        res = env.k.call(opid, run)
        if res[0] == 'exc':
            env.violate('op-fails', 'cdb_make/Cdb: ' + describe(res))
        out, its = res[1]
        flaw = cdb_flaw(env.vfs.peek('/data/home/raw.cdb'))
        if flaw:
            env.violate('format', flaw)
        if its != [(enc(k), v) for k, v in items]:
            env.violate('iteration', 'a cdb made of %r iterates as %r'
                        % (items, its))
        for key, (one, vs) in out.items():
            w = want.get(key, [])
            if one != (w[0] if w else None) or vs != w:
                env.violate('lookup', 'key %r has the values %r; get() '
                            'finds %r, findnext() %r' % (key, w, one, vs))
        env.k.probes['cdb files made directly'] += 1

    def run_read(self, a, op):
        """Another process opens the database meanwhile."""
        env = a.env
        d = env.data
        before = set(d['ok'])
        res = env.k.call(op[0], self.cls, env.cfg['path'])
        after = set(d['ok'])
        if res[0] == 'exc':
            env.violate('reader-fails', 'opening the database while another '
                        'process stores: ' + describe(res))
        got = observe(res[1], d['words'])
        lo = min(before | after)
        allowed = [i for i in range(-1, len(d['handed'])) if i >= lo]
        if self.which(env, got, allowed) is None:
            env.violate('torn-read', 'another process reads %r, which was '
                        'never stored' % got)
        env.k.probes['concurrent opens'] += 1

    def recover(self, a):
        env = a.env
        d = env.data
        k = env.k
        power = k.stats['power losses'] != d.get('powers', 0)
        d['powers'] = k.stats['power losses']
        if power:
            d['ok'] = set(range(len(d['handed'])))
            if not d['boot']:
                d['ok'].add(-1)
        last = len(d['handed']) - 1
        self.open(a, 'rec%d' % a.crashes, 'opening the database after ' + (
            'a power loss' if power else 'a crash'))
        i = min(d['ok'])
        env.sigparts.append(('recovered', power, last - i))
        k.probes['recovered'] += 1
        if power:
            env.vfs.sync_all()
            d['boot'] = env.vfs.peek_stat(d['abs']) is not None
            d['handed'] = d['handed'][:i + 1]
            d['ok'] = {i}


SCENARIO = C13()
