"""The simulated machine: processes, threads, the clock, faults and the event log.

Exactly one task (a real Python thread) runs at any time.  Control changes
hands only inside `Kernel.enter`, which every intercepted call goes through,
and only as the plan says, so that executing a plan is a pure function of the
plan and of the code under test.
"""
import _thread
import collections
import ctypes
import errno
import hashlib
import sys
import threading

from . import images

EPOCH = 1_400_000_000.0     # simulated wall clock at the start of a run
TICK = 1e-5                 # simulated duration of an ordinary call

_tls = threading.local()
_current_kernel = None      # the kernel whose run is in progress, if any


class SimCrash(BaseException):
    """Raised inside a simulated process that has been killed."""


class SimStop(BaseException):
    """Raised to unwind a task: step budget exceeded, deadlock or real hang."""


class Violation(Exception):
    """A property is broken.  `cls` is the class minimisation preserves."""

    def __init__(self, cls, message):
        super().__init__('%s: %s' % (cls, message))
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """The simulator (not the code under test) is at fault."""


def current_task():
    return getattr(_tls, 'task', None)


def current_kernel():
    """The kernel, if the calling thread is a simulated task running code
    under test (inside an operation)."""
    t = getattr(_tls, 'task', None)
    if t is None or t.shield:
        return None
    return t.kernel


class Proc:
    """A simulated process: what dies in a crash."""

    def __init__(self, kernel, name):
        kernel.next_pid += 1
        self.pid = kernel.next_pid
        self.name = name
        self.kernel = kernel
        self.alive = True
        self.fds = {}
        self.sock_timeout = None
        self.image = None            # its copies of the modules

    def __repr__(self):
        return '<Proc %s pid=%d%s>' % (self.name, self.pid,
                                       '' if self.alive else ' dead')


class _ThreadStub:
    """What threading.current_thread() returns inside a task."""
    daemon = True

    def __init__(self, ident, name):
        self.ident = self.native_id = ident
        self.name = name

    getName = lambda self: self.name
    get_name = getName
    is_alive = lambda self: True


class Task:
    def __init__(self, kernel, name, fn, proc):
        self.kernel = kernel
        self.tid = len(kernel.tasks) + 1
        self.name = name
        self.fn = fn
        self._proc = proc
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = 'runnable'      # runnable, sleeping, blocked, done
        self.wake = 0.0
        self.waiting_for = None
        self.op = None               # id of the operation in progress
        self.io = 0                  # intercepted calls made by it so far
        self.shield = True           # not inside an operation: not intercepted
        self.exc = None
        self.postmortem = 0
        self.sticky = None           # fault that lasts until the operation ends
        self.stub = _ThreadStub(0x1000 + self.tid, name)
        self.ident = None
        self.trace = False
        self.thread = None           # the Thread the code under test started
        self.dismissed = False       # such a thread that may go on no more
        self.finished = False        # such a thread that has come to its end

    @property
    def proc(self):
        return self._proc

    @proc.setter
    def proc(self, proc):
        self._proc = proc
        if current_task() is self:
            images.activate(proc)


class Kernel:
    #: file-system and database calls an error can be injected into
    def __init__(self, plan, max_steps=60000, record=None):
        self.plan = plan
        self.tasks = []
        self.next_pid = 4000
        self.now = 0.0               # monotonic simulated seconds
        self.wall_offset = 0.0
        self.step = 0
        self.max_steps = max_steps
        self.log = []
        self.stats = collections.Counter()
        self.fired = collections.Counter()
        self.switches = 0
        self.switch_points = []
        self.fault_points = []
        self.running = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.failure = None          # (kind, text) that ended the run early
        self.violation = None
        self.profile = record        # op id -> [(name, path)] if recording
        self.faults = {}
        for f in plan.get('faults', ()):
            self.faults[(f['op'], f['io'])] = f
        self.preempts = {}
        for op, io, choice in plan.get('preempt', ()):
            self.preempts[(op, io)] = choice
        self.on_image = []           # called in every new process
        self.on_meddle = None        # called for a fault of the scenario's own
        self.tmp_counter = 0
        self.rand_counter = 0
        self.vfs = None
        self.net = None
        self.probes = collections.Counter()
        self.halted = False
        self.crash_keep = 0.0        # of unsynced database updates

    # ---------------------------------------------------------------- tasks
    def new_proc(self, name):
        return Proc(self, name)

    def spawn(self, name, fn, proc=None, trace=False):
        t = Task(self, name, fn, proc or self.new_proc(name))
        t.trace = trace
        self.tasks.append(t)
        return t

    def start_thread(self, thread):
        """The code under test starts a thread of its own."""
        parent = _tls.task
        opid = '%s~%d' % (parent.op, len(self.tasks))

        def body(t):
            t.op, t.shield = opid, False
            self._event(t, 'thread', opid)
            try:
                thread.run()
            except (SimCrash, SimStop):
                pass
            except (Violation, HarnessError):
                raise
            except BaseException as e:
                # what threading does with it: a message on stderr
                self._event(t, 'thread-exc', type(e).__name__)
            finally:
                t.shield = t.finished = True
                t.op = None
                self.unblock(thread)

        t = self.spawn(opid, body, parent.proc, parent.trace)
        t.stub = t.thread = thread
        thread._ident = thread._native_id = 0x1000 + t.tid
        thread._sim_task = t
        self.stats['threads started'] += 1
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _dismiss(self):
        """Only threads of the code under test are left: those that do not
        end by themselves (workers that wait for work) end here."""
        if any(x.state != 'done' and x.thread is None for x in self.tasks):
            return
        left = [x for x in self.tasks if x.state != 'done']
        if all(x.state == 'blocked' or x.thread.daemon for x in left):
            for x in left:
                x.dismissed = True
                x.state = 'runnable'

    def run(self, watchdog=60.0):
        """Run all tasks to their end."""
        global _current_kernel
        if not self.tasks:
            return
        _current_kernel = self
        try:
            for t in list(self.tasks):
                _thread.start_new_thread(self._boot, (t,))
            self.running = self.tasks[0]
            self.running.sem.release()
            tries = 0
            while not self.main_sem.acquire(timeout=watchdog):
                # A task computes without ever making an intercepted call.
                tries += 1
                t = self.running
                if tries > 3 or t is None or t.ident is None:
                    raise HarnessError('simulation stuck in task %s'
                                       % (t and t.name))
                self.failure = ('hang', 'operation %r of %s computes for ever'
                                % (t.op, t.name))
                self.halted = True
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(t.ident), ctypes.py_object(SimStop))
                watchdog = 10.0
        finally:
            _current_kernel = None
            images.activate(None)
        for t in self.tasks:
            if t.exc is not None and not isinstance(t.exc,
                                                    (SimCrash, SimStop)):
                if isinstance(t.exc, Violation):
                    if self.violation is None:
                        self.violation = t.exc
                else:
                    raise HarnessError('task %s: %r' % (t.name, t.exc)) \
                        from t.exc

    def _boot(self, t):
        _tls.task = t
        t.ident = _thread.get_ident()
        t.sem.acquire()
        try:
            images.activate(t.proc)
            if t.trace:
                sys.settrace(_tracer)
            t.fn(t)
        except BaseException as e:
            t.exc = e
            if isinstance(e, Violation):
                self.halted = True
        finally:
            if t.trace:
                sys.settrace(None)
        t.state = 'done'
        t.shield = True
        self._event(t, 'task-end', '')
        _tls.task = None
        nxt = self._pick(t, None)
        if nxt is None:
            self.running = None
            self.main_sem.release()
        else:
            self.running = nxt
            nxt.sem.release()

    def _pick(self, t, choice):
        """The next task to run when `t` cannot or should not go on."""
        while True:
            if any(x.thread is not None for x in self.tasks):
                self._dismiss()
            ready = [x for x in self.tasks if x.state == 'runnable']
            if ready:
                if choice is not None:
                    others = [x for x in ready if x is not t] or ready
                    return others[choice % len(others)]
                for x in ready:
                    if x.tid > t.tid:
                        return x
                return ready[0]
            sleepers = [x for x in self.tasks if x.state == 'sleeping']
            if sleepers:
                first = min(sleepers, key=lambda x: (x.wake, x.tid))
                self.now = max(self.now, first.wake)
                for x in sleepers:
                    if x.wake <= self.now:
                        x.state = 'runnable'
                continue
            stuck = [x for x in self.tasks if x.state == 'blocked']
            if stuck:
                if not self.halted:
                    self.failure = ('deadlock', ', '.join(
                        '%s in %r' % (x.name, x.op) for x in stuck))
                self.halted = True
                for x in stuck:
                    x.state = 'runnable'
                continue
            return None

    def _switch(self, t, choice):
        nxt = self._pick(t, choice)
        if nxt is t:
            return
        self.switches += 1
        self.running = nxt
        nxt.sem.release()
        t.sem.acquire()
        images.activate(t.proc)

    def wake_sleepers(self):
        for x in self.tasks:
            if x.state == 'sleeping' and x.wake <= self.now:
                x.state = 'runnable'

    # ------------------------------------------------------------ operations
    def call(self, opid, fn, *args, **kw):
        """Run one operation of the code under test in the current task.

        Returns ('ok', value) or ('exc', exception); raises SimCrash when the
        process died in it (even if the code swallowed that).
        """
        t = current_task()
        assert t is not None and t.shield, 'nested operation'
        t.op, t.io, t.sticky = opid, 0, None
        proc = t.proc
        if not proc.alive:
            raise SimCrash
        self._event(t, 'op', opid)
        t.shield = False
        try:
            res = ('ok', fn(*args, **kw))
        except (SimCrash, SimStop, Violation, HarnessError):
            if self.halted or not proc.alive:
                raise
            raise
        except BaseException as e:
            _strip(e)
            res = ('exc', e)
        finally:
            t.shield = True
            t.op = None
            t.sticky = None
        if self.halted:
            raise SimStop
        if not proc.alive:
            raise SimCrash
        self._event(t, 'ret', res[0] if res[0] == 'ok'
                    else type(res[1]).__name__)
        return res

    # ------------------------------------------------------------- the seam
    def enter(self, name, path='', proc=None, faultable=True):
        """Every intercepted call comes here before it takes effect.

        Returns the fault to apply (a dict) or None.
        """
        t = _tls.task
        owner = proc or t.proc
        if self.halted or t.dismissed:
            raise SimStop
        if not owner.alive or not t.proc.alive:
            t.postmortem += 1
            if t.postmortem > 20000:
                self.halted = True
            raise SimCrash
        self.step += 1
        if self.step > self.max_steps:
            if self.failure is None:
                self.failure = ('no-progress', 'operation %r of %s did not '
                                'finish within %d steps'
                                % (t.op, t.name, self.max_steps))
            self.halted = True
            raise SimStop
        self.now += TICK
        if t.op is None:
            return None
        t.io += 1
        key = (t.op, t.io)
        if self.profile is not None:
            self.profile.setdefault(t.op, []).append((name, path))
        self.log.append('%s %s.%d %s %s' % (t.name, t.op, t.io, name, path))
        if key in self.preempts:
            self.wake_sleepers()
            before = self.switches
            self._switch(t, self.preempts[key])
            if self.switches != before:
                self.switch_points.append((t.name, name))
            if self.halted:
                raise SimStop
            if not owner.alive or not t.proc.alive:
                raise SimCrash
        f = self.faults.get(key)
        if f is None:
            f = t.sticky
            if f is not None and not (faultable and _applies(f, name)):
                f = None
            elif f is not None:
                self.fired['%s:%s (repeated)' % (f['kind'], name)] += 1
                return f
            return None
        kind = f['kind']
        self.fault_points.append((t.op, t.io, kind, name))
        self.log.append('  fault %s' % kind)
        if kind == 'crash':
            if f.get('torn') is not None and name == 'write':
                self.fired['crash:torn-write'] += 1
                return f
            self.fired['crash:' + name] += 1
            self.crash_keep = f.get('keep', 0.0)
            self.kill(t.proc)
            raise SimCrash
        if kind == 'power':
            self.fired['power:' + name] += 1
            self.power_loss(f)
            raise SimCrash
        if kind == 'stall':
            self.fired['stall:' + name] += 1
            self.sleep(f['sec'])
            return None
        if kind == 'meddle':
            # somebody else does something just before this call
            self.fired['meddle:' + name] += 1
            self.on_meddle(f)
            return None
        if kind == 'jump':
            self.fired['jump'] += 1
            self.wall_offset += f['sec']
            return None
        if not faultable or not _applies(f, name):
            return None
        self.fired['%s:%s' % (f['errno'] if f.get('errno', 'E')[0] != 'E'
                              else kind, name)] += 1
        if f.get('sticky'):
            t.sticky = f
        return f

    def error(self, f, path=None):
        """Raise the OSError a fault stands for."""
        code = getattr(errno, f.get('errno', 'EIO'))
        raise OSError(code, 'simulated ' + f.get('errno', 'EIO'), path)

    def fire(self, kind):
        self.fired[kind] += 1

    def sleep(self, seconds):
        t = _tls.task
        t.state = 'sleeping'
        t.wake = self.now + max(0.0, seconds)
        self._switch(t, None)
        t.state = 'runnable'
        if self.halted or t.dismissed:
            raise SimStop
        if not t.proc.alive:
            raise SimCrash

    def block(self, what):
        t = _tls.task
        t.state = 'blocked'
        t.waiting_for = what
        self._switch(t, None)
        t.state = 'runnable'
        t.waiting_for = None
        if self.halted or t.dismissed:
            raise SimStop
        if not t.proc.alive:
            raise SimCrash

    def unblock(self, what):
        for x in self.tasks:
            if x.state == 'blocked' and x.waiting_for is what:
                x.state = 'runnable'

    def kill(self, proc):
        """The process is gone; its unflushed buffers with it."""
        proc.alive = False
        self.stats['kills'] += 1
        if self.vfs is not None:
            self.vfs.process_died(proc)
        if 'open_dbs' in self.__dict__:
            from . import simdbm
            simdbm.process_died(self, proc, self.crash_keep)
        for x in self.tasks:
            if x.proc is proc and x.state in ('sleeping', 'blocked'):
                x.state = 'runnable'

    def power_loss(self, f):
        self.stats['power losses'] += 1
        for x in self.tasks:
            if x.proc.alive:
                self.kill(x.proc)
        self.vfs.power_loss(f)

    def wall(self):
        return EPOCH + self.now + self.wall_offset

    def _event(self, t, what, detail):
        self.log.append('%s %s %s' % (t.name, what, detail))

    def note(self, text):
        """Harness events that belong to the history (never draw or read
        anything)."""
        self.log.append('# ' + text)

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        for line in self.log:
            h.update(line.encode('utf-8', 'backslashreplace'))
            h.update(b'\n')
        return h.hexdigest()


_APPLIES = {
    # kind -> calls it can hit
    'err': {'open', 'open-w', 'read', 'write', 'fsync', 'rename', 'link',
            'unlink', 'mkdir', 'listdir', 'truncate', 'chmod',
            'db-open', 'db-get', 'db-set', 'db-del', 'db-sync', 'db-close',
            'db-has', 'db-keys'},
    'full': {'write', 'open-w', 'mkdir', 'truncate', 'db-set', 'db-sync',
             'db-close', 'fsync'},
    'nostat': {'stat'},
    'short': {'write'},
    'dns': {'dns'},
    'http': {'http'},
}


def _applies(f, name):
    return name in _APPLIES.get(f['kind'], ())


def _strip(e):
    # Tracebacks keep frames (and with them file and database handles) alive;
    # drop them so that handles are released by reference counting, always at
    # the same point.
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__
    return None


TRACE_PREFIX = '/repo/sbclassifier'


def _tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    if not fn.startswith(TRACE_PREFIX):
        return None
    return _line_tracer


def _line_tracer(frame, event, arg):
    if event == 'line':
        t = getattr(_tls, 'task', None)
        if t is not None and not t.shield:
            t.kernel.enter('line', '%s:%d' % (
                frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno),
                faultable=False)
    return _line_tracer


class SimLock:
    """threading.Lock for simulated threads (one state per process)."""
    reentrant = False

    def __init__(self):
        self._states = {}

    def _state(self):
        t = getattr(_tls, 'task', None)
        key = t.proc.pid if t is not None else 0
        k = t.kernel if t is not None else None
        s = self._states.get(key)
        if s is None or s[2] is not k:
            # a fresh run: forget the locks of earlier ones
            self._states = {p: v for p, v in self._states.items()
                            if v[2] is k}
            s = self._states[key] = [None, 0, k]
        return s

    def acquire(self, blocking=True, timeout=-1):
        t = getattr(_tls, 'task', None)
        s = self._state()
        me = t.tid if t is not None else -1
        if t is not None and not t.shield:
            t.kernel.enter('lock', '', faultable=False)
        deadline = None
        if t is not None and timeout is not None and timeout >= 0:
            deadline = t.kernel.now + timeout
        while True:
            if s[0] is None or (self.reentrant and s[0] == me):
                s[0] = me
                s[1] += 1
                return True
            if not blocking:
                return False
            if t is None:
                raise HarnessError('lock contended outside a simulation')
            if deadline is not None:
                if t.kernel.now >= deadline:
                    return False
                t.kernel.sleep(min(0.01, deadline - t.kernel.now))
            else:
                t.kernel.block(self)

    def release(self):
        t = getattr(_tls, 'task', None)
        s = self._state()
        me = t.tid if t is not None else -1
        if s[0] is None or (self.reentrant and s[0] != me):
            raise RuntimeError('release unlocked lock')
        s[1] -= 1
        if s[1] <= 0:
            s[0], s[1] = None, 0
            if t is not None:
                t.kernel.unblock(self)

    def locked(self):
        return self._state()[0] is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # threading.Condition uses these on RLocks
    def _is_owned(self):
        t = getattr(_tls, 'task', None)
        return self._state()[0] == (t.tid if t is not None else -1)

    def _release_save(self):
        s = self._state()
        n = s[1]
        s[1] = 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._state()[1] = n

    def _at_fork_reinit(self):
        self._states = {}


class SimRLock(SimLock):
    reentrant = True
