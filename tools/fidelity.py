"""Is the simulated disk what it stands for?

    fidelity.py [-n HISTORIES] [-s SEED]

Random sequences of file operations (system calls and the library calls on top
of them) run on the simulated disk and on a real one, in a scratch directory;
every result, every errno and the files afterwards have to agree.
"""
import argparse
import errno
import fcntl
import glob
import io
import mmap
import os
import pathlib
import random
import shutil
import stat
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simkit import sim  # noqa: E402

NAMES = ['a', 'b', 'c', 'd', 'd/a', 'd/b', 'd/e', 'd/e/a', './a', 'd/./b',
         'a/', 'd/', 'none/a', 'a/b', 'x' * 300, '\udce9', '.h']
MODES = ['r', 'rb', 'w', 'wb', 'a', 'ab', 'x', 'xb', 'r+', 'r+b', 'w+b',
         'a+b', 'rw']
FLAGS = [os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREAT,
         os.O_RDWR | os.O_CREAT | os.O_EXCL,
         os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         os.O_WRONLY | os.O_CREAT | os.O_APPEND, os.O_RDONLY | os.O_DIRECTORY]
DATA = [b'', b'x', b'hello\nworld\n', b'\r\n\x00\xff' * 5, b'z' * 9000]


def st(s):
    return (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode),
            None if stat.S_ISDIR(s.st_mode) else (s.st_nlink, s.st_size))


class World:
    """The operations; everything relative to the current directory."""

    def __init__(self):
        self.files = []

    def pick(self, i, kind):
        fs = [f for f in self.files if isinstance(f, int) == (kind == 'fd')]
        if not fs:
            raise LookupError
        return fs[i % len(fs)]

    # files
    def open(self, p, mode, buffering):
        self.files.append(open(p, mode, buffering,
                               encoding=None if 'b' in mode else 'utf-8'))

    def raw(self, p, mode):
        self.files.append(io.FileIO(p, mode.replace('b', '')))

    def f_read(self, i, n):
        return self.pick(i, 'f').read(n)

    def f_lines(self, i):
        return self.pick(i, 'f').readlines()

    def f_line(self, i):
        return self.pick(i, 'f').readline()

    def f_write(self, i, data):
        f = self.pick(i, 'f')
        if isinstance(f, io.TextIOBase):
            data = data.decode('latin-1')
        return f.write(data)

    def f_seek(self, i, pos, whence):
        return self.pick(i, 'f').seek(pos, whence)

    def f_tell(self, i):
        return self.pick(i, 'f').tell()

    def f_truncate(self, i, n):
        return self.pick(i, 'f').truncate(n)

    def f_flush(self, i):
        return self.pick(i, 'f').flush()

    def f_sync(self, i):
        return os.fsync(self.pick(i, 'f').fileno())

    def f_what(self, i):
        f = self.pick(i, 'f')
        return (f.name if isinstance(f.name, str) else 'fd', f.mode, f.readable(), f.writable(), f.seekable(),
                f.closed, f.isatty(), type(f).__name__.replace(
                    'SimRaw', 'FileIO'),
                type(getattr(f, 'raw', None)).__name__ != 'NoneType')

    def f_close(self, i):
        f = self.pick(i, 'f')
        self.files.remove(f)
        f.close()
        return f.closed

    def f_after_close(self, i):
        f = self.pick(i, 'f')
        self.files.remove(f)
        f.close()
        return f.read()

    def f_stat(self, i):
        return st(os.fstat(self.pick(i, 'f').fileno()))

    def f_lock(self, i, op):
        return fcntl.flock(self.pick(i, 'f'), op | fcntl.LOCK_NB)

    def f_map(self, i, n):
        f = self.pick(i, 'f')
        if not f.readable():
            raise LookupError
        with mmap.mmap(f.fileno(), n, access=mmap.ACCESS_READ) as m:
            return len(m), m[:], m[2:5], m.find(b'l'), m.size(), bytes(m)

    # descriptors
    def os_open(self, p, flags, mode):
        self.files.append(os.open(p, flags, mode))

    def os_fdopen(self, i, mode):
        fd = self.pick(i, 'fd')
        self.files.append(os.fdopen(fd, mode))
        self.files.remove(fd)

    def os_read(self, i, n):
        return os.read(self.pick(i, 'fd'), n)

    def os_write(self, i, data):
        return os.write(self.pick(i, 'fd'), data)

    def os_pread(self, i, n, pos):
        return os.pread(self.pick(i, 'fd'), n, pos)

    def os_pwrite(self, i, data, pos):
        return os.pwrite(self.pick(i, 'fd'), data, pos)

    def os_writev(self, i, data):
        return os.writev(self.pick(i, 'fd'), [data, b'', bytearray(data[:3])])

    def os_readv(self, i, n):
        bufs = [bytearray(3), bytearray(n)]
        return os.readv(self.pick(i, 'fd'), bufs), bufs

    def os_pwritev(self, i, data, pos):
        return os.pwritev(self.pick(i, 'fd'), [data[:2], data], pos)

    def os_preadv(self, i, n, pos):
        bufs = [bytearray(n), bytearray(2)]
        return os.preadv(self.pick(i, 'fd'), bufs, pos), bufs

    def os_fallocate(self, i, pos, n):
        return os.posix_fallocate(self.two(i, i)[0], pos, n + 1)

    def two(self, i, j):
        """Descriptors of files (what comes of others is not modelled)."""
        fds = self.pick(i, 'fd'), self.pick(j, 'fd')
        stats = [os.fstat(fd) for fd in fds]
        if any(stat.S_ISDIR(s.st_mode) for s in stats) or \
                i != j and stats[0].st_ino == stats[1].st_ino:
            raise LookupError
        return fds

    def os_send(self, i, j, n, pos):
        dst, src = self.two(i, j)
        if dst == src:
            raise LookupError
        return os.sendfile(dst, src, pos, n)

    def os_copy_range(self, i, j, n):
        src, dst = self.two(i, j)
        if dst == src:
            raise LookupError
        return os.copy_file_range(src, dst, n)

    def os_lseek(self, i, pos, whence):
        fd = self.pick(i, 'fd')
        if stat.S_ISDIR(os.fstat(fd).st_mode):
            raise LookupError
        return os.lseek(fd, pos, whence)

    def os_ftruncate(self, i, n):
        return os.ftruncate(self.pick(i, 'fd'), n)

    def os_fstat(self, i):
        return st(os.fstat(self.pick(i, 'fd')))

    def os_close(self, i):
        fd = self.pick(i, 'fd')
        self.files.remove(fd)
        return os.close(fd)

    def os_closed_twice(self, i):
        fd = self.pick(i, 'fd')
        self.files.remove(fd)
        os.close(fd)
        return os.read(fd, 1)

    # names
    def stat(self, p):
        return st(os.stat(p))

    def exists(self, p):
        return (os.path.exists(p), os.path.isfile(p), os.path.isdir(p),
                os.path.lexists(p), os.path.islink(p), os.access(p, os.R_OK))

    def getsize(self, p):
        return 0 if os.path.isdir(p) else os.path.getsize(p)

    def same(self, p, q):
        return os.path.samefile(p, q)

    def unlink(self, p):
        return os.unlink(p)

    def rename(self, p, q):
        return os.rename(p, q)

    def replace(self, p, q):
        return os.replace(p, q)

    def link(self, p, q):
        return os.link(p, q)

    def mkdir(self, p, mode):
        return os.mkdir(p, mode)

    def makedirs(self, p, ok):
        return os.makedirs(p, exist_ok=ok)

    def rmdir(self, p):
        return os.rmdir(p)

    def chmod(self, p, mode):
        return os.chmod(p, mode)

    def utime(self, p, t):
        os.utime(p, (t, t))
        return os.stat(p).st_mtime, os.path.getmtime(p)

    def truncate(self, p, n):
        return os.truncate(p, n)

    def listdir(self, p):
        return sorted(map(named, os.listdir(p)))

    def scandir(self, p):
        with os.scandir(p) as it:
            return sorted((named(e.name), named(e.path), e.is_file(), e.is_dir(),
                           e.is_symlink(), st(e.stat())) for e in it)

    def walk(self, p):
        return sorted((r, sorted(d), sorted(map(named, f))) for r, d, f in os.walk(p))

    def glob(self, p):
        return sorted(map(named, glob.glob(p + '/*') + glob.glob(
            '**', recursive=True)))

    # on top
    def copy(self, p, q, how):
        return getattr(shutil, how)(p, q) and None

    def move(self, p, q):
        return shutil.move(p, q)

    def rmtree(self, p):
        return shutil.rmtree(p)

    def copytree(self, p, q):
        if os.path.abspath(q).startswith(os.path.abspath(p)):
            raise LookupError    # (what it finds depends on the order)
        return shutil.copytree(p, q)

    def path_read(self, p):
        return pathlib.Path(p).read_bytes()

    def path_write(self, p, data):
        return pathlib.Path(p).write_bytes(data)

    def path_text(self, p):
        return pathlib.Path(p).read_text('latin-1')

    def path_iter(self, p):
        return sorted(map(named, map(str, pathlib.Path(p).iterdir())))

    def path_glob(self, p):
        return sorted(map(named, map(str, pathlib.Path(p).glob(
            '*')))) + sorted(
            map(str, pathlib.Path('.').rglob('a')))

    def path_ops(self, p):
        q = pathlib.Path(p)
        return (q.exists(), q.is_file(), q.is_dir(), q.is_symlink(),
                q.stat().st_size * q.is_file())

    def path_touch(self, p, ok):
        return pathlib.Path(p).touch(exist_ok=ok)

    def path_unlink(self, p, ok):
        return pathlib.Path(p).unlink(missing_ok=ok)

    def path_mkdir(self, p, parents, ok):
        return pathlib.Path(p).mkdir(parents=parents, exist_ok=ok)

    def path_rename(self, p, q):
        return str(pathlib.Path(p).rename(q))

    def temp(self, p, data):
        fd, name = tempfile.mkstemp('.tmp', 'pre', p)
        try:
            with os.fdopen(fd, 'wb') as f:
                f.write(data)
            mode = st(os.stat(name))
            with open(name, 'rb') as f:
                return f.read(), mode
        finally:
            os.unlink(name)

    def temp_file(self, p, data):
        with tempfile.NamedTemporaryFile(dir=p) as f:
            f.write(data)
            f.flush()
            got = os.path.getsize(f.name)
        return got, os.path.exists(f.name)

    def temp_keep(self, p, q, data):
        with tempfile.NamedTemporaryFile('wb', dir=p, delete=False) as f:
            f.write(data)
        os.replace(f.name, q)

    def temp_dir(self, p, data):
        with tempfile.TemporaryDirectory(dir=p) as d:
            with open(os.path.join(d, 'f'), 'wb') as f:
                f.write(data)
            return os.listdir(d)


ARGS = {
    'open': 'p m B', 'raw': 'p m', 'f_read': 'i n', 'f_lines': 'i', 'f_line': 'i',
    'f_write': 'i d', 'f_seek': 'i n w', 'f_tell': 'i', 'f_truncate': 'i o',
    'f_flush': 'i', 'f_sync': 'i', 'f_what': 'i', 'f_close': 'i',
    'f_after_close': 'i', 'f_stat': 'i', 'f_lock': 'i L', 'f_map': 'i z',
    'os_open': 'p F M', 'os_fdopen': 'i m', 'os_read': 'i n',
    'os_write': 'i d', 'os_pread': 'i n n', 'os_pwrite': 'i d n',
    'os_writev': 'i d', 'os_readv': 'i n', 'os_pwritev': 'i d n',
    'os_preadv': 'i n n', 'os_fallocate': 'i n n', 'os_send': 'i i n n',
    'os_copy_range': 'i i n',
    'os_lseek': 'i n w', 'os_ftruncate': 'i n', 'os_fstat': 'i',
    'os_close': 'i', 'os_closed_twice': 'i',
    'stat': 'p', 'exists': 'p', 'getsize': 'p', 'same': 'p p', 'unlink': 'p',
    'rename': 'p p', 'replace': 'p p', 'link': 'p p', 'mkdir': 'p M',
    'makedirs': 'p b', 'rmdir': 'p', 'chmod': 'p M', 'utime': 'p t',
    'truncate': 'p n', 'listdir': 'p', 'scandir': 'p', 'walk': 'p',
    'glob': 'p', 'copy': 'p p H', 'move': 'p p', 'rmtree': 'p',
    'copytree': 'p p', 'path_read': 'p', 'path_write': 'p d',
    'path_text': 'p', 'path_iter': 'p', 'path_glob': 'p', 'path_ops': 'p',
    'path_touch': 'p b', 'path_unlink': 'p b', 'path_mkdir': 'p b b',
    'path_rename': 'p p', 'temp': 'p d', 'temp_file': 'p d',
    'temp_keep': 'p p d', 'temp_dir': 'p d',
}
OFTEN = ['open', 'open', 'open', 'os_open', 'os_open', 'path_write', 'mkdir',
         'mkdir', 'f_write', 'f_write', 'os_write', 'f_close']


def generate(rng):
    ops = [['mkdir', 'd', 0o755], ['path_write', 'a', DATA[2]]]
    for _ in range(rng.randint(5, 40)):
        name = rng.choice(OFTEN) if rng.random() < 0.3 else rng.choice(
            sorted(ARGS))
        op = [name]
        args = ARGS[name].split()
        # (which of two strange names an error is about is not compared)
        names = NAMES if args.count('p') == 1 else NAMES[:10]
        for a in args:
            op.append({
                'p': lambda: rng.choice(names[:9] if rng.random() < 0.8
                                        else names),
                'm': lambda: rng.choice(MODES),
                'B': lambda: rng.choice([-1, -1, -1, 0, 1, 100]),
                'i': lambda: rng.randrange(4),
                'n': lambda: rng.choice([0, 1, 3, 7, 5000]),
                'o': lambda: rng.choice([None, 0, 4, 20]),
                'z': lambda: rng.choice([0, 0, 1, 5, 100000]),
                'w': lambda: rng.choice([0, 0, 1, 2]),
                'd': lambda: rng.choice(DATA),
                'F': lambda: rng.choice(FLAGS),
                'M': lambda: rng.choice([0o600, 0o644, 0o755]),
                'L': lambda: rng.choice([fcntl.LOCK_EX, fcntl.LOCK_SH,
                                         fcntl.LOCK_UN]),
                't': lambda: rng.choice([0, 1, 86400 * 365, 1.5]),
                'b': lambda: rng.random() < 0.5,
                'H': lambda: rng.choice(['copyfile', 'copy', 'copy2']),
            }[a]())
        ops.append(op)
    return ops


def tree():
    out = []
    for r, ds, fs in sorted(os.walk('.')):
        for f in sorted(fs):
            p = os.path.join(r, f)
            with open(p, 'rb') as g:
                out.append((named(p), g.read(), st(os.stat(p))))
        ds.sort()
        out.extend((os.path.join(r, d), stat.S_IMODE(os.stat(
            os.path.join(r, d)).st_mode)) for d in ds)
    return sorted(out)


def named(x):
    """A name in an error; random ones are all the same."""
    if isinstance(x, str):
        x = x.replace(os.getcwd() + '/', 'CWD/')
        d, base = os.path.split(x)
        if base.startswith(('pre', 'tmp')):
            x = d + '/TMP'
    return x


def run(ops):
    w = World()
    out = []
    for op in ops:
        try:
            r = ('ok', getattr(w, op[0])(*op[1:]))
        except LookupError:
            r = ('none', None)
        except shutil.Error as e:
            r = ('exc', 'shutil.Error')
        except OSError as e:
            r = ('exc', type(e).__name__, errno.errorcode.get(e.errno),
                 named(e.filename), named(e.filename2))
            if isinstance(e.filename, int):
                r = r[:3] + (None, None)
        except Exception as e:
            r = ('exc', type(e).__name__)
        out.append(r)
    for f in w.files:
        try:
            os.close(f) if isinstance(f, int) else f.close()
        except OSError:
            pass
    out.append(tree())
    return out


def simulated(ops):
    env = sim.Env(sim.Scenario(), {}, None)
    env.k.max_steps = 10 ** 6
    out = []
    proc = env.k.new_proc('P')
    env.k.spawn('T', lambda t: out.append(run(ops)), proc=proc)
    env.k.run(watchdog=20)
    if env.k.violation or env.k.failure or not out:
        print(env.k.log[-5:], *ops, sep='\n')
        raise SystemExit('the simulation failed: %r' % (
            env.k.violation or env.k.failure,))
    return out[0]


def real(ops):
    d = tempfile.mkdtemp(prefix='fidelity')
    here = os.getcwd()
    try:
        os.chdir(d)
        return run(ops)
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=2000)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-a', action='store_true', help='all differences')
    args = ap.parse_args()
    os.umask(0o022)
    sim.prepare()
    counts, bad = {}, {}
    for i in range(args.n):
        ops = generate(random.Random('%d/%d' % (args.s, i)))
        a, b = simulated(ops), real(ops)
        for n, (x, y) in enumerate(zip(a, b)):
            op = ops[n] if n < len(ops) else ['tree']
            k = (op[0], y[0] if n < len(ops) else '')
            counts[k] = counts.get(k, 0) + 1
            if x != y:
                key = (op[0], str(x)[:60], str(y)[:60])
                bad.setdefault(key, []).append((i, n))
                if len(bad[key]) == 1:
                    print('history %d, operation %d: %s\n  simulated %s\n'
                          '  real      %s' % (i, n, repr(op)[:150],
                                              repr(x)[:300], repr(y)[:300]))
                if not args.a:
                    for j in range(max(0, n - 12), n):
                        print('     before:', repr(ops[j])[:90],
                              repr(b[j])[:80])
                    return 1
                break
    print('%d operations in %d histories, %d kinds of operation, %d of them '
          'also failing; differences: %d' % (
              sum(counts.values()), args.n, len({k[0] for k in counts}),
              len({k[0] for k in counts if k[1] == 'exc'}), len(bad)))
    return bool(bad)


sys.exit(main())
