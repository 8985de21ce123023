"""Put the interpreter's own seams behind the simulator.

Installed once, before /repo is imported.  Every replacement defers to the
real function unless the calling thread is a simulated task.
"""
import builtins
import errno
import hashlib
import io
import mmap
import os
import random
import shutil
import socket
import tempfile
import threading
import time

from . import kernel as _k
from . import simdbm
from .vfs import FD_BASE, HOST

_current = _k.current_task
_installed = False
#: while /repo is being imported, locks made are simulated ones
importing = False


def _vfs():
    t = _current()
    return t.kernel.vfs if t is not None else None


def _fs(path):
    """(vfs, simulated path) or (None, path)"""
    t = _current()
    if t is None or t.kernel.vfs is None:
        return None, path
    v = t.kernel.vfs
    p = v.norm(path)
    if p is None:
        return None, path
    return v, p


def _is_simfd(fd):
    return isinstance(fd, int) and not isinstance(fd, bool) and fd >= FD_BASE


def _no_real_write(path):
    if _current() is not None:
        raise PermissionError(errno.EACCES, 'outside the simulated machine',
                              path)


class naming:
    """An error names the files as the caller did."""

    def __init__(self, path, second=None):
        self.names = tuple(os.fspath(x) if hasattr(x, '__fspath__') else x
                           for x in (path, second))

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if isinstance(e, OSError) and e.errno is not None:
            e.filename, e.filename2 = self.names


class PlannedSet:
    """A set of hashables, iterated in or against the order of insertion."""

    def __init__(self, items=()):
        self.d = dict.fromkeys(items)

    def __iter__(self):
        t = _current()
        order = list(self.d)
        if t is not None and t.kernel.plan.get('order', 0) % 2:
            order.reverse()
        return iter(order)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return x in self.d

    def add(self, x):
        self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def clear(self):
        self.d.clear()

    def copy(self):
        return PlannedSet(self.d)

    def __or__(self, other):
        return PlannedSet(list(self.d) + list(getattr(other, 'd', other)))


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real = {}

    # The order in which a signal reaches its receivers is that of a set of
    # addresses; the plan decides it here.
    import blinker
    blinker.Signal.set_class = PlannedSet

    def patch(mod, name, make):
        orig = getattr(mod, name)
        real[name] = orig
        new = make(orig)
        new.__name__ = name
        setattr(mod, name, new)

    # ------------------------------------------------------------ open
    real_open = io.open

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None):
        v = _vfs()
        if v is not None:
            if _is_simfd(file):
                return v.open(file, mode, buffering, encoding, errors,
                              newline, closefd)
            if not isinstance(file, int):
                p = v.norm(file)
                if p is not None:
                    if opener is not None:
                        return v.open(file, mode, buffering, encoding,
                                      errors, newline, closefd, opener)
                    with naming(file):
                        return v.open(file, mode, buffering, encoding,
                                      errors, newline, closefd)
                if set(mode) & set('wax+'):
                    _no_real_write(file)
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    builtins.open = io.open = sim_open

    real_fileio = io.FileIO

    class sim_fileio(real_fileio):
        def __new__(cls, file, mode='r', closefd=True, opener=None):
            v = _vfs()
            if v is not None and (_is_simfd(file) or
                                  not isinstance(file, int) and
                                  v.norm(file) is not None):
                return sim_open(file, mode.replace('b', '') + 'b', 0,
                                closefd=closefd, opener=opener)
            if v is not None and set(mode) & set('wax+'):
                _no_real_write(file)
            return real_fileio(file, mode, closefd, opener)
    io.FileIO = sim_fileio

    # --------------------------------------------------------- os, by path
    def os_open(orig):
        def f(path, flags, mode=0o777, *, dir_fd=None):
            v, p = _fs(path)
            if v is not None:
                with naming(path):
                    return v.sys_open(p, flags, mode).fd
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                _no_real_write(path)
            return orig(path, flags, mode, dir_fd=dir_fd)
        return f
    patch(os, 'open', os_open)

    def one_path(sim_name, writes=False):
        def make(orig):
            def f(path, *a, **kw):
                if _is_simfd(path):
                    v = _vfs()
                    of = v.of(path)
                    if orig.__name__ == 'stat':
                        return v.fd_stat(of)
                    if orig.__name__ == 'truncate':
                        return v.fd_truncate(of, *a)
                    return None
                v, p = _fs(path)
                if v is not None:
                    kw = {k: x for k, x in kw.items()
                          if k not in ('follow_symlinks', 'dir_fd')}
                    with naming(path if sim_name != 'sys_utime' else None):
                        return getattr(v, sim_name)(p, *a, **kw)
                if writes:
                    _no_real_write(path)
                return orig(path, *a, **kw)
            return f
        return make
    patch(os, 'stat', one_path('sys_stat'))
    patch(os, 'lstat', one_path('sys_stat'))
    patch(os, 'access', one_path('sys_access'))
    patch(os, 'unlink', one_path('sys_unlink', True))
    patch(os, 'remove', one_path('sys_unlink', True))
    patch(os, 'mkdir', one_path('sys_mkdir', True))
    patch(os, 'rmdir', one_path('sys_rmdir', True))
    patch(os, 'chmod', one_path('sys_chmod', True))
    patch(os, 'utime', one_path('sys_utime', True))
    patch(os, 'truncate', one_path('sys_truncate', True))

    def os_listdir(orig):
        def f(path='.'):
            v, p = _fs(path if path is not None else '.')
            if v is not None:
                with naming(path):
                    names = v.sys_listdir(p)
                if isinstance(path, bytes):
                    names = [os.fsencode(n) for n in names]
                return names
            return orig(path)
        return f
    patch(os, 'listdir', os_listdir)

    class _Entry:
        def __init__(self, v, d, p, name):
            self._v, self.name = v, name
            self.path = os.path.join(d, name)
            self._p = p + '/' + name

        def stat(self, *, follow_symlinks=True):
            return self._v.sys_stat(self._p)

        def _type(self):
            return self._v.peek_stat(self._p)

        def is_dir(self, *, follow_symlinks=True):
            n = self._type()
            return n is not None and n.isdir()

        def is_file(self, *, follow_symlinks=True):
            n = self._type()
            return n is not None and not n.isdir()

        def is_symlink(self):
            return False

        def is_junction(self):
            return False

        def inode(self):
            return self._v.sys_stat(self._p).st_ino

        def __fspath__(self):
            return self.path

    class _Scan:
        def __init__(self, it):
            self._it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def close(self):
            self._it = iter(())

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def os_scandir(orig):
        def f(path='.'):
            v, p = _fs(path if path is not None else '.')
            if v is not None:
                with naming(path):
                    names = v.sys_listdir(p)
                return _Scan([_Entry(v, path, p.rstrip('/'), n)
                              for n in names])
            return orig(path)
        return f
    patch(os, 'scandir', os_scandir)

    def two_paths(sim_name):
        def make(orig):
            def f(src, dst, **kw):
                v, p = _fs(src)
                w, q = _fs(dst)
                if v is not None and w is not None:
                    with naming(src, dst):
                        return getattr(v, sim_name)(p, q)
                if _current() is not None:
                    raise OSError(errno.EXDEV, 'Invalid cross-device link')
                return orig(src, dst, **kw)
            return f
        return make
    patch(os, 'rename', two_paths('sys_rename'))
    patch(os, 'replace', two_paths('sys_rename'))
    patch(os, 'link', two_paths('sys_link'))

    def os_symlink(orig):
        def f(src, dst, *a, **kw):
            if _current() is not None:
                raise OSError(errno.EPERM, 'no symbolic links here')
            return orig(src, dst, *a, **kw)
        return f
    patch(os, 'symlink', os_symlink)

    def os_readlink(orig):
        def f(path, *a, **kw):
            v, p = _fs(path)
            if v is not None:
                v._lookup(p)
                raise OSError(errno.EINVAL, 'Invalid argument')
            return orig(path, *a, **kw)
        return f
    patch(os, 'readlink', os_readlink)

    def os_getcwd(orig):
        def f():
            v = _vfs()
            return v.cwd if v is not None else orig()
        return f
    patch(os, 'getcwd', os_getcwd)

    def xattr(orig):
        def f(path, *a, **kw):
            if _is_simfd(path) or _fs(path)[0] is not None:
                return []
            return orig(path, *a, **kw)
        return f
    for n in ('listxattr',):
        patch(os, n, xattr)

    def os_chown(orig):
        def f(path, *a, **kw):
            if _is_simfd(path) or _fs(path)[0] is not None:
                return None
            _no_real_write(path)
            return orig(path, *a, **kw)
        return f
    patch(os, 'chown', os_chown)

    # (these have taken the functions they use before they were replaced)
    import shutil
    import tempfile
    shutil._use_fd_functions = False
    closer = tempfile._TemporaryFileCloser.cleanup
    closer.__defaults__ = tuple(os.unlink if x is real['unlink'] else x
                                for x in closer.__defaults__)

    # ----------------------------------------------------------- os, by fd
    def by_fd(sim):
        def make(orig):
            def f(fd, *a, **kw):
                if not isinstance(fd, int) and hasattr(fd, 'fileno'):
                    fd = fd.fileno()
                if _is_simfd(fd):
                    v = _vfs()
                    if v is None:
                        raise OSError(errno.EBADF, 'Bad file descriptor')
                    return sim(v, v.of(fd), *a, **kw)
                return orig(fd, *a, **kw)
            return f
        return make
    patch(os, 'read', by_fd(lambda v, of, n: v.fd_read(of, n)))
    patch(os, 'write', by_fd(lambda v, of, d: v.fd_write(of, bytes(d))))
    patch(os, 'pread', by_fd(lambda v, of, n, o: v.fd_read(of, n, o)))
    patch(os, 'pwrite', by_fd(lambda v, of, d, o: v.fd_write(of, bytes(d),
                                                             o)))
    patch(os, 'lseek', by_fd(lambda v, of, p, w=0: v.fd_seek(of, p, w)))
    patch(os, 'fsync', by_fd(lambda v, of: v.fd_fsync(of)))
    patch(os, 'fdatasync', by_fd(lambda v, of: v.fd_fsync(of)))
    patch(os, 'ftruncate', by_fd(lambda v, of, n: v.fd_truncate(of, n)))
    patch(os, 'fstat', by_fd(lambda v, of: v.fd_stat(of)))
    patch(os, 'close', by_fd(lambda v, of: v.fd_close(of)))
    patch(os, 'isatty', by_fd(lambda v, of: False))
    patch(os, 'set_inheritable', by_fd(lambda v, of, x: None))
    patch(os, 'fchmod', by_fd(lambda v, of, m: None))
    patch(os, 'fchown', by_fd(lambda v, of, u, g: None))
    patch(os, 'posix_fadvise', by_fd(lambda v, of, *a: None))

    def allocate(v, of, offset, n):
        if of.acc == os.O_RDONLY:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if offset + n > len(of.inode.data):
            v.fd_truncate(of, offset + n)

    def gather(v, of, bufs, *at):
        return v.fd_write(of, b''.join(bytes(b) for b in bufs), *at[:1])

    def scatter(v, of, bufs, *at):
        views = [memoryview(b).cast('B') for b in bufs]
        data = v.fd_read(of, sum(len(b) for b in views), *at[:1])
        n = 0
        for b in views:
            chunk = data[n:n + len(b)]
            b[:len(chunk)] = chunk
            n += len(chunk)
        return len(data)
    patch(os, 'posix_fallocate', by_fd(allocate))
    patch(os, 'writev', by_fd(gather))
    patch(os, 'pwritev', by_fd(gather))
    patch(os, 'readv', by_fd(scatter))
    patch(os, 'preadv', by_fd(scatter))

    def transfer(src, dst, count, offset_src, offset_dst, appending):
        v = _vfs()
        if v is None or not (_is_simfd(src) and _is_simfd(dst)):
            raise OSError(errno.EINVAL, 'Invalid argument')
        if v.of(dst).acc == os.O_RDONLY or v.of(src).acc == os.O_WRONLY:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if v.of(dst).flags & os.O_APPEND:
            raise OSError(appending, os.strerror(appending))
        data = v.fd_read(v.of(src), count, offset_src)
        return v.fd_write(v.of(dst), data, offset_dst) if data else 0

    def os_copy_file_range(orig):
        def f(src, dst, count, offset_src=None, offset_dst=None):
            if _is_simfd(src) or _is_simfd(dst):
                return transfer(src, dst, count, offset_src, offset_dst,
                                errno.EBADF)
            return orig(src, dst, count, offset_src, offset_dst)
        return f
    patch(os, 'copy_file_range', os_copy_file_range)

    def os_sendfile(orig):
        def f(out_fd, in_fd, offset, count, *a, **kw):
            if _is_simfd(out_fd) or _is_simfd(in_fd):
                return transfer(in_fd, out_fd, count, offset, None,
                                errno.EINVAL)
            return orig(out_fd, in_fd, offset, count, *a, **kw)
        return f
    patch(os, 'sendfile', os_sendfile)

    space = os.statvfs_result((4096, 4096, 1 << 24, 1 << 23, 1 << 23, 1 << 20,
                               1 << 19, 1 << 19, 4096, 255))
    patch(os, 'fstatvfs', by_fd(lambda v, of: space))

    def os_statvfs(orig):
        def f(path):
            if _is_simfd(path) or _fs(path)[0] is not None:
                return space
            return orig(path)
        return f
    patch(os, 'statvfs', os_statvfs)

    def os_sync(orig):
        def f():
            v = _vfs()
            return v.sync_all() if v is not None else orig()
        return f
    patch(os, 'sync', os_sync)

    import fcntl
    patch(fcntl, 'flock', by_fd(lambda v, of, op: v.fd_flock(of, op)))
    patch(fcntl, 'lockf', by_fd(lambda v, of, op, *a: v.fd_flock(of, op)))

    real_mmap = mmap.mmap

    class sim_mmap(real_mmap):
        def __new__(cls, fd, length, *a, **kw):
            if _is_simfd(fd):
                v = _vfs()
                of = v.of(fd)
                v._gate('read', of.path, of.proc)
                if of.acc == os.O_WRONLY and of.inode.data and \
                        length <= len(of.inode.data):
                    raise OSError(errno.EACCES, 'Permission denied')
                # (a real mapping of a copy: what the file is now)
                real = os.memfd_create('sim')
                try:
                    with open(real, 'wb', closefd=False) as f:
                        f.write(of.inode.data)
                    return real_mmap(real, length, *a, **kw)
                finally:
                    os.close(real)
            return real_mmap(fd, length, *a, **kw)
    mmap.mmap = sim_mmap

    # ------------------------------------------------- process and entropy
    def os_getpid(orig):
        def f():
            t = _current()
            return t.proc.pid if t is not None else orig()
        return f
    patch(os, 'getpid', os_getpid)

    def os_kill(orig):
        def f(pid, sig):
            t = _current()
            if t is None:
                return orig(pid, sig)
            for x in t.kernel.tasks:
                if x.proc.pid == pid and x.proc.alive:
                    if sig == 0:
                        return None
                    raise PermissionError(errno.EPERM, 'not simulated')
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        return f
    patch(os, 'kill', os_kill)

    def os_urandom(orig):
        def f(n):
            t = _current()
            if t is None:
                return orig(n)
            k = t.kernel
            k.rand_counter += 1
            return hashlib.shake_128(
                b'%d' % k.rand_counter).digest(n)
        return f
    patch(os, 'urandom', os_urandom)
    random._urandom = os.urandom

    def os_getrandom(orig):
        def f(size, flags=0):
            return os.urandom(size) if _current() is not None else \
                orig(size, flags)
        return f
    patch(os, 'getrandom', os_getrandom)
    import uuid
    uuid._generate_time_safe = None
    uuid._node = 0x0242ac110002

    # ---------------------------------------------------------------- time
    def t_time(orig):
        def f():
            t = _current()
            return t.kernel.wall() if t is not None else orig()
        return f
    patch(time, 'time', t_time)

    def t_time_ns(orig):
        def f():
            t = _current()
            return int(t.kernel.wall() * 1e9) if t is not None else orig()
        return f
    patch(time, 'time_ns', t_time_ns)

    def t_mono(orig):
        def f():
            t = _current()
            return t.kernel.now if t is not None else orig()
        return f
    for n in ('monotonic', 'perf_counter'):
        patch(time, n, t_mono)

    def t_sleep(orig):
        def f(sec):
            t = _current()
            if t is None:
                return orig(sec)
            if sec < 0:
                raise ValueError('sleep length must be non-negative')
            if not t.shield:
                t.kernel.enter('sleep', '%g' % sec, faultable=False)
            t.kernel.sleep(sec)
        return f
    patch(time, 'sleep', t_sleep)

    for n in ('localtime', 'gmtime'):
        def t_struct(orig):
            def f(secs=None):
                t = _current()
                if secs is None and t is not None:
                    secs = t.kernel.wall()
                return orig(secs)
            return f
        patch(time, n, t_struct)

    import datetime
    real_dt = datetime.datetime

    class sim_datetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            t = _current()
            if t is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(t.kernel.wall(), tz)

        @classmethod
        def utcnow(cls):
            t = _current()
            if t is None:
                return real_dt.utcnow()
            return real_dt.utcfromtimestamp(t.kernel.wall())

        @classmethod
        def today(cls):
            return cls.now()

    sim_datetime.__name__ = sim_datetime.__qualname__ = 'datetime'
    datetime.datetime = sim_datetime

    # ----------------------------------------------------------------- net
    def s_get(orig):
        def f():
            t = _current()
            if t is None:
                return orig()
            if not t.shield:
                t.kernel.enter('getdefaulttimeout', '', faultable=False)
            return t.proc.sock_timeout
        return f
    patch(socket, 'getdefaulttimeout', s_get)

    def s_set(orig):
        def f(v):
            t = _current()
            if t is None:
                return orig(v)
            if not t.shield:
                t.kernel.enter('setdefaulttimeout', repr(v), faultable=False)
            if v is not None:
                v = float(v)
                if v < 0:
                    raise ValueError('Timeout value out of range')
            t.proc.sock_timeout = v
        return f
    patch(socket, 'setdefaulttimeout', s_set)

    def net_call(name):
        def make(orig):
            def f(*a, **kw):
                t = _current()
                if t is None:
                    return orig(*a, **kw)
                if t.kernel.net is None:
                    raise socket.gaierror(socket.EAI_AGAIN,
                                          'Temporary failure in name '
                                          'resolution')
                return getattr(t.kernel.net, name)(t, *a, **kw)
            return f
        return make
    for n in ('getaddrinfo', 'gethostbyaddr', 'gethostbyname',
              'gethostbyname_ex', 'getnameinfo', 'getfqdn'):
        patch(socket, n, net_call(n))

    def s_hostname(orig):
        def f():
            return HOST if _current() is not None else orig()
        return f
    patch(socket, 'gethostname', s_hostname)

    def s_nocreate(orig):
        def f(*a, **kw):
            if _current() is not None:
                raise OSError(errno.ENETUNREACH, 'Network is unreachable')
            return orig(*a, **kw)
        return f
    patch(socket, 'create_connection', s_nocreate)

    import requests.adapters
    real_send = requests.adapters.HTTPAdapter.send

    def sim_send(self, request, **kw):
        t = _current()
        if t is None:
            return real_send(self, request, **kw)
        return t.kernel.net.http(t, self, request, **kw)
    requests.adapters.HTTPAdapter.send = sim_send

    # ------------------------------------------------------------ tempfile
    real_names = tempfile._get_candidate_names

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            k = _current().kernel
            k.tmp_counter += 1
            return 'sim%05d' % k.tmp_counter

    def sim_names():
        return _Names() if _current() is not None else real_names()
    tempfile._get_candidate_names = sim_names
    real_gettempdir = tempfile._gettempdir

    def sim_gettempdir():
        return '/tmp' if _current() is not None else real_gettempdir()
    tempfile._gettempdir = sim_gettempdir
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False

    # ------------------------------------------------------------- threads
    def lock_factory(cls):
        def make(orig):
            def f(*a, **kw):
                if importing or _current() is not None:
                    return cls()
                return orig(*a, **kw)
            return f
        return make
    patch(threading, 'Lock', lock_factory(_k.SimLock))
    patch(threading, 'RLock', lock_factory(_k.SimRLock))
    patch(threading, '_allocate_lock', lock_factory(_k.SimLock))

    def th_current(orig):
        def f():
            t = _current()
            return t.stub if t is not None else orig()
        return f
    patch(threading, 'current_thread', th_current)
    threading.currentThread = threading.current_thread

    def th_ident(orig):
        def f():
            t = _current()
            return t.stub.ident if t is not None else orig()
        return f
    patch(threading, 'get_ident', th_ident)

    def th_start(orig):
        def start(self):
            t = _current()
            if t is None or t.shield:
                return orig(self)
            if self._started.is_set():
                raise RuntimeError('threads can only be started once')
            self._started.set()
            t.kernel.start_thread(self)
            t.kernel.enter('thread', '', faultable=False)
        return start
    patch(threading.Thread, 'start', th_start)

    def th_join(orig):
        def join(self, timeout=None):
            t = _current()
            task = getattr(self, '_sim_task', None)
            if t is None or task is None:
                return orig(self, timeout)
            k = t.kernel
            deadline = None if timeout is None else k.now + max(timeout, 0)
            while not task.finished:
                if deadline is None:
                    k.block(self)
                elif k.now >= deadline:
                    return
                else:
                    k.sleep(min(0.01, deadline - k.now))
        return join
    patch(threading.Thread, 'join', th_join)

    def th_alive(orig):
        def is_alive(self):
            task = getattr(self, '_sim_task', None)
            if task is None:
                return orig(self)
            return not task.finished
        return is_alive
    patch(threading.Thread, 'is_alive', th_alive)

    import queue
    simple = queue.SimpleQueue

    def make_queue(*a, **kw):
        if _current() is not None:
            return queue._PySimpleQueue(*a, **kw)
        return simple(*a, **kw)
    queue.SimpleQueue = make_queue

    # Nothing may start real programs from inside the simulation.
    def refuse(orig):
        def f(*a, **kw):
            if _current() is not None:
                raise PermissionError(errno.EPERM,
                                      'no other programs in the simulation')
            return orig(*a, **kw)
        return f
    for n in ('fork', 'forkpty', 'posix_spawn', 'posix_spawnp', 'system'):
        patch(os, n, refuse)
    import subprocess
    patch(subprocess.Popen, '_execute_child', refuse)

    # ----------------------------------------------------------------- dbm
    import dbm

    def dbm_open(orig):
        def f(file, flag='r', mode=0o666):
            t = _current()
            if t is None:
                return orig(file, flag, mode)
            return simdbm.open_db(t, file, flag, mode)
        return f
    patch(dbm, 'open', dbm_open)


def reset_random(seed):
    """The global PRNG, should the code under test draw from it."""
    random.seed(seed)
