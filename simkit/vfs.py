"""The simulated disk: an in-memory file system with crash semantics.

* /data (device 1) and /tmp (device 2) are simulated; other paths are read
  straight from the real machine and can never be written.
* A process crash keeps everything written with a system call.
* A power loss keeps, per device, a prefix of the metadata changes since the
  last fsync and, per file, a prefix of the unsynced writes.
"""
import errno
import hashlib
import io
import math
import os
import stat as st

from . import kernel as _k

FD_BASE = 1_000_000
HOST = 'simhost'
HZ = 250                     # ticks of the clock of file times
_real_open = io.open


def is_lock_path(path):
    """Files of the lock protocol itself: errors there are not injected (a
    lock whose own bookkeeping fails has no defined behaviour)."""
    base = path.rsplit('/', 1)[-1]
    return base.endswith('.lock') or base.startswith(HOST)


# What a call may raise that no OSError handler sees: a signal while it waits,
# or no memory for its buffers.
INTERRUPTS = {'interrupt': KeyboardInterrupt, 'exit': SystemExit,
              'memory': MemoryError}


class Inode:
    __slots__ = ('ino', 'dev', 'mode', 'nlink', 'mtime', 'ctime', 'atime',
                 'data', 'durable', 'wlog', 'entries', 'dentries', 'flocks',
                 'dirty_gen')

    def __init__(self, ino, dev, mode, now):
        self.ino, self.dev, self.mode = ino, dev, mode
        self.nlink = 1
        self.mtime = self.ctime = self.atime = now
        if st.S_ISDIR(mode):
            self.entries = {}
            self.dentries = {}
            self.data = None
        else:
            self.data = bytearray()
            self.durable = b''
            self.wlog = []
            self.flocks = {}

    def isdir(self):
        return self.entries_or_none() is not None

    def entries_or_none(self):
        return self.entries if st.S_ISDIR(self.mode) else None


class OpenFile:
    def __init__(self, vfs, fd, inode, path, flags, proc):
        self.vfs, self.fd, self.inode, self.path = vfs, fd, inode, path
        self.flags, self.proc = flags, proc
        self.pos = 0
        self.acc = flags & os.O_ACCMODE
        self.closed = False


class SimRaw(io.RawIOBase):
    """What FileIO is to a real descriptor."""

    def __init__(self, vfs, of, name, mode, closefd=True):
        self._vfs, self._of = vfs, of
        self.name = name
        self.mode = mode
        self._closefd = closefd

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self):
        self._chk()
        return '+' in self.mode or 'r' in self.mode

    def writable(self):
        self._chk()
        return self.mode != 'rb'         # ('wb', 'ab', 'xb' and all '+')

    def seekable(self):
        self._chk()
        return True

    def fileno(self):
        self._chk()
        return self._of.fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        data = self._vfs.fd_read(self._of, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        out = b''
        while True:
            data = self._vfs.fd_read(self._of, 65536)
            if not data:
                return out
            out += data

    def read(self, size=-1):
        self._chk()
        if size is None or size < 0:
            return self.readall()
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        return self._vfs.fd_read(self._of, size)

    def write(self, b):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation('not writable')
        return self._vfs.fd_write(self._of, bytes(b))

    def seek(self, pos, whence=0):
        self._chk()
        return self._vfs.fd_seek(self._of, pos, whence)

    def tell(self):
        self._chk()
        return self._of.pos

    def truncate(self, size=None):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation('truncate')
        if size is None:
            size = self._of.pos
        self._vfs.fd_truncate(self._of, size)
        return size

    def close(self):
        if not self.closed:
            try:
                if self._closefd:
                    self._vfs.fd_close(self._of)
            finally:
                super().close()


class VFS:
    def __init__(self, kernel, order_seed=0, cwd='/data/home'):
        self.k = kernel
        kernel.vfs = self
        self.next_ino = 100
        self.next_fd = FD_BASE
        self.files = {}              # fd -> OpenFile
        self.order_seed = order_seed
        self.cwd = cwd
        self.roots = {}
        self.journal = {1: [], 2: []}
        self.on_meta = None          # the scenario's record of changes
        for path, dev in (('/data', 1), ('/tmp', 2)):
            d = self._inode(dev, st.S_IFDIR | 0o755)
            self.roots[path] = d
        self.mkdirs(cwd)
        self.sync_all()

    def _inode(self, dev, mode):
        self.next_ino += 1
        return Inode(self.next_ino, dev, mode, self._clock())

    # -------------------------------------------------------------- paths
    def norm(self, path):
        """The absolute simulated path, or None if it is a real one."""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        elif not isinstance(path, str):
            try:
                path = os.fspath(path)
            except TypeError:
                return None
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        if '\0' in path:
            raise ValueError('embedded null byte')
        out = []
        for c in path.split('/'):
            if c in ('', '.'):
                continue
            if c == '..':
                if out:
                    out.pop()
            else:
                out.append(c)
        if not out or '/' + out[0] not in self.roots:
            return None
        return '/' + '/'.join(out) + ('/' if path.endswith('/') and
                                      len(out) > 1 else '')

    def _walk(self, path):
        """(directory inode, last name, inode or None)"""
        want_dir = path.endswith('/')
        parts = path.strip('/').split('/')
        cur = self.roots['/' + parts[0]]
        if len(parts) == 1:
            return None, parts[0], cur
        for c in parts[1:-1]:
            if not cur.isdir():
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory',
                                         path)
            self._short(c, path)
            nxt = cur.entries.get(c)
            if nxt is None:
                raise FileNotFoundError(errno.ENOENT,
                                        'No such file or directory', path)
            cur = nxt
        if not cur.isdir():
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        self._short(parts[-1], path)
        node = cur.entries.get(parts[-1])
        if want_dir and node is not None and not node.isdir():
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', path)
        return cur, parts[-1], node

    @staticmethod
    def _short(name, path):
        if len(name.encode('utf-8', 'surrogateescape')) > 255:
            raise OSError(errno.ENAMETOOLONG, 'File name too long', path)

    def _lookup(self, path):
        d, name, node = self._walk(path)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                                    path)
        return node

    # ----------------------------------------------- metadata and journal
    def _meta(self, dev, *changes):
        """Apply directory changes [(dir, name, inode or None)] atomically
        and journal them."""
        for d, name, node in changes:
            if self.on_meta is not None:
                self.on_meta(d, name, d.entries.get(name), node)
            if node is None:
                d.entries.pop(name, None)
            else:
                d.entries[name] = node
            d.mtime = d.ctime = self._clock()
        self.journal[dev].append(changes)

    def _commit(self, dev, n=None):
        j = self.journal[dev]
        n = len(j) if n is None else n
        for changes in j[:n]:
            for d, name, node in changes:
                if node is None:
                    d.dentries.pop(name, None)
                else:
                    d.dentries[name] = node
        del j[:n]

    def _sync_inode(self, node):
        if not node.isdir():
            node.durable = bytes(node.data)
            node.wlog = []
        self._commit(node.dev)

    def sync_all(self):
        for dev in self.journal:
            self._commit(dev)
        for root in self.roots.values():
            self._sync_tree(root)

    def _sync_tree(self, d):
        for n in d.entries.values():
            if n.isdir():
                self._sync_tree(n)
            else:
                n.durable = bytes(n.data)
                n.wlog = []

    def power_loss(self, f):
        """f: {'meta': 0..1, 'data': int seed}"""
        for dev, j in sorted(self.journal.items()):
            n = int(round(f.get('meta', 0) * len(j)))
            self._commit(dev, n)
            j.clear()
        seen = set()
        for root in self.roots.values():
            self._restore(root, f.get('data', 0), seen)

    def _restore(self, d, seed, seen):
        d.entries = dict(d.dentries)
        for name in sorted(d.entries):
            n = d.entries[name]
            if n.ino in seen:
                n.nlink += 1
                continue
            seen.add(n.ino)
            if n.isdir():
                self._restore(n, seed, seen)
                continue
            n.nlink = 1
            n.flocks = {}
            h = hashlib.blake2b(b'%d/%d' % (seed, n.ino),
                                digest_size=8).digest()
            units = sum(1 if op[0] == 't' else len(op[2]) for op in n.wlog)
            mode = h[0] % 4
            keep = 0 if mode == 0 else units if mode == 1 else (
                int.from_bytes(h[1:7], 'big') % (units + 1))
            data = bytearray(n.durable)
            for op in n.wlog:
                if op[0] == 't':
                    if keep < 1:
                        break
                    keep -= 1
                    _resize(data, op[1])
                else:
                    chunk = op[2][:keep]
                    _put(data, op[1], chunk)
                    keep -= len(chunk)
                    if len(chunk) < len(op[2]):
                        break
            n.data = data
            n.durable = bytes(data)
            n.wlog = []

    def process_died(self, proc):
        for fd in [fd for fd, of in self.files.items() if of.proc is proc]:
            of = self.files.pop(fd)
            of.closed = True
            if not of.inode.isdir():
                of.inode.flocks.pop(fd, None)
                self.k.unblock(of.inode)

    # ------------------------------------------------------- harness access
    def mkdirs(self, path):
        cur = self.roots['/' + path.strip('/').split('/')[0]]
        for c in path.strip('/').split('/')[1:]:
            if c not in cur.entries:
                n = self._inode(cur.dev, st.S_IFDIR | 0o755)
                self._meta(cur.dev, (cur, c, n))
            cur = cur.entries[c]
        return cur

    def peek(self, path):
        """File content for the oracle (no events), or None."""
        try:
            return bytes(self._lookup(path).data)
        except (OSError, TypeError):
            return None

    def peek_stat(self, path):
        try:
            return self._lookup(path)
        except OSError:
            return None

    def tree(self, path='/data'):
        """{path: bytes or None for a directory} below path."""
        out = {}

        def rec(p, d):
            for name, n in sorted(d.entries.items()):
                q = p + '/' + name
                if n.isdir():
                    out[q] = None
                    rec(q, n)
                else:
                    out[q] = bytes(n.data)
        rec(path, self._lookup(path))
        return out

    def _clock(self):
        """The time as file systems have it: that of the last tick."""
        return math.floor(self.k.wall() * HZ) / HZ

    def poke(self, path, data, mtime=None):
        """Create or overwrite a file behind everybody's back."""
        d, name, node = self._walk(path)
        if node is None or node.isdir():
            node = self._inode(d.dev, st.S_IFREG | 0o644)
            self._meta(d.dev, (d, name, node))
        node.data = bytearray(data)
        node.wlog = []
        node.durable = bytes(data)
        node.mtime = node.ctime = self.k.wall() if mtime is None else mtime
        self._commit(d.dev)

    def poke_unlink(self, path):
        d, name, node = self._walk(path)
        if node is not None:
            node.nlink -= 1
            self._meta(d.dev, (d, name, None))
            self._commit(d.dev)

    # ------------------------------------------------------------ syscalls
    def _gate(self, name, path, proc=None):
        t = _k.current_task()
        if t is None or t.shield:
            if proc is not None and not proc.alive:
                raise _k.SimCrash
            return None
        return self.k.enter(name, path, proc,
                            faultable=not is_lock_path(path))

    def _fail(self, f, path):
        if f is not None and f['kind'] in ('err', 'full'):
            code = f.get('errno') or ('ENOSPC' if f['kind'] == 'full'
                                      else 'EIO')
            self._raise(code, path)

    @staticmethod
    def _raise(code, path):
        if code in INTERRUPTS:
            raise INTERRUPTS[code]('simulated')
        n = getattr(errno, code)
        raise OSError(n, os.strerror(n), path)

    def sys_open(self, path, flags, mode=0o777, name=None):
        acc = flags & os.O_ACCMODE
        writing = acc != os.O_RDONLY or flags & os.O_TRUNC
        f = self._gate('open-w' if writing else 'open', path)
        d, base, node = self._walk(path.rstrip('/') if flags & os.O_CREAT
                                   else path)
        if flags & os.O_CREAT and path.endswith('/'):
            self._raise('EISDIR', path)
        if node is not None and flags & os.O_CREAT and flags & os.O_EXCL:
            self._raise('EEXIST', path)
        if node is None and not flags & os.O_CREAT:
            self._raise('ENOENT', path)
        if node is not None and node.isdir() and (
                writing or flags & os.O_CREAT):
            self._raise('EISDIR', path)
        if node is not None and not node.isdir() and flags & os.O_DIRECTORY:
            self._raise('ENOTDIR', path)
        if f is not None and f['kind'] == 'full':
            # only creating a file needs space
            if node is None:
                self._fail(f, path)
        else:
            self._fail(f, path)
        if node is None:
            node = self._inode(d.dev, st.S_IFREG | (mode & 0o777 & ~0o022))
            self._meta(d.dev, (d, base, node))
        if flags & os.O_TRUNC and not node.isdir():
            self._truncate(node, 0)
        self.next_fd += 1
        of = OpenFile(self, self.next_fd, node, path, flags,
                      _k.current_task().proc)
        self.files[of.fd] = of
        return of

    def of(self, fd):
        of = self.files.get(fd)
        if of is None:
            if isinstance(fd, int) and fd >= FD_BASE:
                # of a dead process, or closed
                t = _k.current_task()
                if t is not None and not t.proc.alive:
                    raise _k.SimCrash
                raise OSError(errno.EBADF, 'Bad file descriptor')
        return of

    def fd_read(self, of, n, pos=None):
        f = self._gate('read', of.path, of.proc)
        if f is not None:
            self._fail(f, None)
        if of.acc == os.O_WRONLY:
            self._raise('EBADF', None)
        if of.inode.isdir():
            self._raise('EISDIR', None)
        at = of.pos if pos is None else pos
        data = bytes(of.inode.data[at:at + n])
        if pos is None:
            of.pos += len(data)
        return data

    def _truncate(self, node, size):
        if len(node.data) != size:
            node.wlog.append(('t', size))
            _resize(node.data, size)
        node.mtime = node.ctime = self._clock()

    def _write_at(self, of, pos, data):
        node = of.inode
        node.wlog.append(('w', pos, data))
        _put(node.data, pos, data)
        node.mtime = node.ctime = self._clock()

    def fd_write(self, of, data, pos=None):
        f = self._gate('write', of.path, of.proc)
        if of.acc == os.O_RDONLY:
            self._raise('EBADF', None)
        # (as on Linux, a file opened for appending is always appended to)
        at = len(of.inode.data) if of.flags & os.O_APPEND else (
            of.pos if pos is None else pos)
        if f is not None:
            keep = int(len(data) * f.get('keep', 0))
            if f['kind'] == 'crash':
                self._write_at(of, at, data[:int(len(data) * f['torn'])])
                self.k.kill(_k.current_task().proc)
                raise _k.SimCrash
            if f['kind'] == 'short':
                if len(data) > 1:
                    data = data[:max(1, keep)]
            elif f['kind'] == 'full':
                # what still fits is written; the next write gets the error
                if keep and not f.get('_spent'):
                    f['_spent'] = True
                    data = data[:keep]
                    t = _k.current_task()
                    t.sticky = t.sticky or dict(f, sticky=False)
                else:
                    self._fail(f, None)
            else:
                if keep:
                    self._write_at(of, at, data[:keep])
                    if pos is None:
                        of.pos = at + keep
                self._fail(f, None)
        if data:
            self._write_at(of, at, data)
            if pos is None:
                of.pos = at + len(data)
        return len(data)

    def fd_seek(self, of, pos, whence=0):
        if not of.proc.alive:
            raise _k.SimCrash
        if of.inode.isdir():
            self._raise('EINVAL', None)
        if whence == 1:
            pos += of.pos
        elif whence == 2:
            pos += len(of.inode.data)
        if pos < 0:
            self._raise('EINVAL', None)
        of.pos = pos
        return pos

    def fd_truncate(self, of, size):
        f = self._gate('truncate', of.path, of.proc)
        if of.acc == os.O_RDONLY or of.inode.isdir():
            self._raise('EINVAL', None)
        self._fail(f, None)
        self._truncate(of.inode, size)

    def fd_fsync(self, of):
        f = self._gate('fsync', of.path, of.proc)
        self._fail(f, None)
        self._sync_inode(of.inode)

    def fd_close(self, of):
        if of.closed:
            return
        self._gate('close', of.path, of.proc)
        of.closed = True
        self.files.pop(of.fd, None)
        if not of.inode.isdir() and of.inode.flocks.pop(of.fd, None):
            self.k.unblock(of.inode)

    def fd_flock(self, of, op):
        import fcntl
        node = of.inode
        while True:
            self._gate('flock', of.path, of.proc)
            if op & fcntl.LOCK_UN:
                if node.flocks.pop(of.fd, None):
                    self.k.unblock(node)
                return
            others = [m for fd, m in node.flocks.items() if fd != of.fd]
            ok = not others if op & fcntl.LOCK_EX else 'x' not in others
            if ok:
                node.flocks[of.fd] = 'x' if op & fcntl.LOCK_EX else 's'
                return
            if op & fcntl.LOCK_NB:
                self._raise('EWOULDBLOCK', None)
            self.k.block(node)

    def stat_result(self, n):
        size = 4096 if n.isdir() else len(n.data)
        seq = (n.mode, n.ino, n.dev, n.nlink, 0, 0, size,
               int(n.atime), int(n.mtime), int(n.ctime))
        return os.stat_result(seq, {
            'st_atime': n.atime, 'st_mtime': n.mtime, 'st_ctime': n.ctime,
            'st_atime_ns': int(n.atime * 1e9),
            'st_mtime_ns': int(n.mtime * 1e9),
            'st_ctime_ns': int(n.ctime * 1e9),
            'st_blksize': 4096, 'st_blocks': (size + 511) // 512})

    def sys_stat(self, path):
        f = self._gate('stat', path)
        if f is not None and f['kind'] == 'nostat':
            self._raise(f['errno'], path)
        return self.stat_result(self._lookup(path))

    def fd_stat(self, of):
        self._gate('stat', of.path, of.proc)
        return self.stat_result(of.inode)

    def sys_access(self, path, mode):
        f = self._gate('stat', path)
        if f is not None and f['kind'] == 'nostat':
            return False
        try:
            self._lookup(path)
        except OSError:
            return False
        return True

    def sys_unlink(self, path):
        f = self._gate('unlink', path)
        d, name, node = self._walk(path)
        if node is None:
            self._raise('ENOENT', path)
        if node.isdir():
            self._raise('EISDIR', path)
        self._fail(f, path)
        node.nlink -= 1
        node.ctime = self._clock()
        self._meta(d.dev, (d, name, None))

    def sys_link(self, src, dst):
        f = self._gate('link', dst)
        node = self._lookup(src)
        d, name, old = self._walk(dst)
        if old is not None:
            self._raise('EEXIST', dst)
        if node.isdir():
            self._raise('EPERM', dst)
        if d.dev != node.dev:
            self._raise('EXDEV', dst)
        self._fail(f, dst)
        node.nlink += 1
        node.ctime = self._clock()
        self._meta(d.dev, (d, name, node))

    def sys_rename(self, src, dst):
        f = self._gate('rename', dst)
        sd, sname, node = self._walk(src)
        if node is None:
            self._walk(dst.rstrip('/').rpartition('/')[0] + '/x')
            self._raise('ENOENT', src)
        d, name, old = self._walk(dst)
        if old is node:
            self._fail(f, dst)
            return
        if old is not None and old.isdir() and self._inside(old, sd):
            self._raise('ENOTEMPTY', dst)
        if d is None or sd is None or d.dev != node.dev:
            self._raise('EXDEV', dst)
        if node.isdir() and self._inside(node, d):
            self._raise('EINVAL', dst)
        if old is not None and old.isdir() != node.isdir():
            self._raise('EISDIR' if old.isdir() else 'ENOTDIR', dst)
        if old is not None and old.isdir() and old.entries:
            self._raise('ENOTEMPTY', dst)
        self._fail(f, dst)
        if old is not None:
            old.nlink -= 1
        node.ctime = self._clock()
        self._meta(d.dev, (sd, sname, None), (d, name, node))

    def _inside(self, node, d):
        """Is the directory d node or below it?"""
        return d is node or any(n.isdir() and self._inside(n, d)
                                for n in node.entries.values())

    def sys_mkdir(self, path, mode=0o777):
        f = self._gate('mkdir', path)
        d, name, node = self._walk(path.rstrip('/'))
        if node is not None:
            self._raise('EEXIST', path)
        self._fail(f, path)
        n = self._inode(d.dev, st.S_IFDIR | (mode & 0o777 & ~0o022))
        self._meta(d.dev, (d, name, n))

    def sys_rmdir(self, path):
        f = self._gate('unlink', path)
        d, name, node = self._walk(path.rstrip('/'))
        if node is None:
            self._raise('ENOENT', path)
        if not node.isdir():
            self._raise('ENOTDIR', path)
        if node.entries:
            self._raise('ENOTEMPTY', path)
        self._fail(f, path)
        self._meta(d.dev, (d, name, None))

    def order(self, path, names):
        """A directory's listing order: arbitrary but repeatable."""
        key = '%s/%s/' % (self.order_seed, path)
        return sorted(names, key=lambda n: hashlib.blake2b(
            (key + n).encode('utf-8', 'surrogateescape'),
            digest_size=8).digest())

    def sys_listdir(self, path):
        f = self._gate('listdir', path)
        node = self._lookup(path)
        if not node.isdir():
            self._raise('ENOTDIR', path)
        self._fail(f, path)
        return self.order(path, node.entries)

    def sys_chmod(self, path, mode):
        f = self._gate('chmod', path)
        n = self._lookup(path)
        self._fail(f, path)
        n.mode = st.S_IFMT(n.mode) | (mode & 0o7777)
        n.ctime = self._clock()

    def sys_utime(self, path, times=None, ns=None):
        self._gate('utime', path)
        n = self._lookup(path)
        now = self._clock()
        if ns is not None:
            n.atime, n.mtime = ns[0] / 1e9, ns[1] / 1e9
        elif times is not None:
            n.atime, n.mtime = map(float, times)
        else:
            n.atime = n.mtime = now
        n.ctime = now

    def sys_truncate(self, path, size):
        f = self._gate('truncate', path)
        n = self._lookup(path)
        if n.isdir():
            self._raise('EISDIR', path)
        self._fail(f, path)
        self._truncate(n, size)

    # ------------------------------------------------------------- open()
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        """builtins.open for simulated files (file: simulated path or
        simulated descriptor)."""
        m = set(mode)
        if len(m) != len(mode) or m - set('rwaxbt+') or \
                len(m & set('rwax')) != 1 or ('b' in m and 't' in m):
            raise ValueError('invalid mode: %r' % mode)
        if 'b' in m and (encoding or errors or newline is not None):
            raise ValueError('binary mode takes no encoding, errors or '
                             'newline argument')
        flags = 0
        if 'r' in m:
            flags = os.O_RDWR if '+' in m else os.O_RDONLY
        else:
            flags = (os.O_RDWR if '+' in m else os.O_WRONLY) | os.O_CREAT
            if 'w' in m:
                flags |= os.O_TRUNC
            elif 'x' in m:
                flags |= os.O_EXCL
            else:
                flags |= os.O_APPEND
        name = file
        if isinstance(file, int):
            of = self.of(file)
            if of.inode.isdir():
                self._raise('EISDIR', None)
        elif opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
            of = self.of(fd)
        else:
            path = self.norm(file)
            of = self.sys_open(path, flags, 0o666)
            if of.inode.isdir():
                self.fd_close(of)
                self._raise('EISDIR', file)
        kind = (m & set('rax') or {'w'}).pop()
        raw = SimRaw(self, of, name, {'r': 'rb', 'w': 'rb' if '+' in m else
                                      'wb'}.get(kind, kind + 'b') +
                     '+' * ('+' in m), closefd)
        if 'a' in m:
            of.pos = len(of.inode.data)
        try:
            if buffering == 0:
                if 'b' not in m:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in m:
                buf = io.BufferedRandom(raw, size)
            elif 'r' in m:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if 'b' in m:
                return buf
            text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                    buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise


def _resize(data, size):
    if len(data) > size:
        del data[size:]
    else:
        data.extend(b'\0' * (size - len(data)))


def _put(data, pos, chunk):
    if not chunk:
        return
    if len(data) < pos:
        data.extend(b'\0' * (pos - len(data)))
    data[pos:pos + len(chunk)] = chunk
