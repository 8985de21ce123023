"""Simulated dbm modules.

What a dbm module keeps of updates that were never synced differs: the
personality of a run says how this one behaves.

  through       every update reaches the disk at once; has sync()
  back          updates reach the disk at sync() or close()
  nosync        as `back`, without a sync() method (dbm.ndbm)
  gnu           as `back`, and a database cannot be opened again while it is
                open for writing (dbm.gnu)
  dumb          the real dbm.dumb on the simulated disk

After a process crash any prefix of the updates since the last sync may be on
the disk; the fault that kills the process says which.
"""
import dbm.dumb
import os

from . import kernel as _k

PERSONALITIES = ('through', 'back', 'nosync', 'gnu')


class error(OSError):
    pass


class Store:
    """The file: durable content plus updates not yet forced out."""

    def __init__(self):
        self.disk = {}
        self.pending = []
        self.opens = 0

    def view(self):
        d = dict(self.disk)
        for k, v in self.pending:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return d

    def flush(self, n=None):
        n = len(self.pending) if n is None else n
        for k, v in self.pending[:n]:
            if v is None:
                self.disk.pop(k, None)
            else:
                self.disk[k] = v
        del self.pending[:n]


def open_db(t, file, flag, mode):
    k = t.kernel
    pers = k.plan.get('cfg', {}).get('dbm', 'through')
    path = k.vfs.norm(os.fspath(file))
    if path is None:
        raise error(13, 'outside the simulated machine')
    if pers == 'dumb':
        return dbm.dumb.open(file, flag, mode)
    stores = k.__dict__.setdefault('stores', {})
    f = None if t.shield else k.enter('db-open', path)
    if f is not None:
        raise error(5, 'simulated failure opening %s' % path)
    parent = k.vfs._walk(path)[0]          # the directory must exist
    s = stores.get(path)
    if pers == 'gnu':
        for other in k.__dict__.get('open_dbs', ()):
            if other.store is not None and other.path == path and \
                    other.proc.alive and not (flag == 'r' and
                                              other.readonly):
                raise error(11, 'Resource temporarily unavailable')
    if s is None or flag == 'n':
        if s is None and flag in ('r', 'w'):
            raise error(2, 'No such file: %s' % path)
        s = stores[path] = Store()
        k.vfs.poke(path + '.db', b'simulated database')
    cls = NoSyncDb if pers == 'nosync' else Db
    db = cls(k, t.proc, s, path, pers, flag)
    k.__dict__.setdefault('open_dbs', []).append(db)
    return db


def process_died(k, proc, keep):
    """Keep a prefix of every unsynced update of the dead process."""
    for db in k.__dict__.get('open_dbs', ()):
        if db.proc is proc and db.store is not None:
            s = db.store
            n = int(round(keep * len(s.pending)))
            k.probes['crash with unsynced updates'] += bool(s.pending)
            s.flush(n)
            s.pending.clear()
            db.store = None


def _bytes(x):
    if isinstance(x, str):
        return x.encode('utf-8')
    if not isinstance(x, bytes):
        raise TypeError('dbm keys and values must be bytes or strings')
    return x


class NoSyncDb:
    def __init__(self, k, proc, store, path, pers, flag):
        self.k, self.proc, self.store = k, proc, store
        self.path, self.pers = path, pers
        self.readonly = flag == 'r'

    def _gate(self, name, key=None):
        t = _k.current_task()
        if not self.proc.alive:
            if t is not None and not t.shield:
                self.k.enter(name, '', self.proc)
            raise _k.SimCrash
        if self.store is None:
            raise error(9, 'DBM object has already been closed')
        if t is None or t.shield:
            return None
        return self.k.enter(name, repr(key) if key is not None else '',
                            self.proc)

    def _fail(self, f):
        if f is not None and f['kind'] in ('err', 'full'):
            raise error(28 if f['kind'] == 'full' else 5,
                        'simulated database failure')

    def __getitem__(self, key):
        key = _bytes(key)
        self._fail(self._gate('db-get', key))
        return self.store.view()[key]

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def _update(self, key, value):
        self.store.pending.append((key, value))
        if self.pers == 'through':
            self.store.flush()

    def __setitem__(self, key, value):
        key, value = _bytes(key), _bytes(value)
        f = self._gate('db-set', key)
        if self.readonly:
            raise error(1, 'database opened read-only')
        if f is not None and f.get('applied'):
            self._update(key, value)
        self._fail(f)
        self._update(key, value)

    def __delitem__(self, key):
        key = _bytes(key)
        f = self._gate('db-del', key)
        if self.readonly:
            raise error(1, 'database opened read-only')
        present = key in self.store.view()
        if f is not None and f.get('applied') and present:
            self._update(key, None)
        self._fail(f)
        if not present:
            raise KeyError(key)
        self._update(key, None)

    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return v

    def setdefault(self, key, default=b''):
        try:
            return self[key]
        except KeyError:
            self[key] = default
            return _bytes(default)

    def __contains__(self, key):
        key = _bytes(key)
        self._fail(self._gate('db-has', key))
        return key in self.store.view()

    def keys(self):
        self._fail(self._gate('db-keys'))
        return [n.encode('latin-1') for n in self.k.vfs.order(
            self.path, [x.decode('latin-1') for x in self.store.view()])]

    def items(self):
        return [(key, self[key]) for key in self.keys()]

    def values(self):
        return [self[key] for key in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def firstkey(self):
        ks = self.keys()
        return ks[0] if ks else None

    def __len__(self):
        return len(self.store.view())

    def close(self):
        if self.store is None:
            return
        if not self.proc.alive:
            raise _k.SimCrash
        f = self._gate('db-close')
        s = self.store
        if f is not None and self.pers != 'nosync':
            # (closing an ndbm database cannot report an error)
            self._fail(f)
        s.flush()
        self.store = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        # Real modules flush and close when the object goes away.
        try:
            if self.store is not None and self.proc.alive:
                self.store.flush()
                self.store = None
        except BaseException:
            pass


class Db(NoSyncDb):
    def sync(self):
        f = self._gate('db-sync')
        if f is not None:
            self.store.flush(int(len(self.store.pending) *
                                 f.get('keep', 0)))
            self._fail(f)
        self.store.flush()

    def reorganize(self):
        self._gate('db-sync')
