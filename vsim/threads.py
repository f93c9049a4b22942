"""Deterministic thread scheduler.

Real threads, one running at a time: the baton moves only at trace events
(source lines; optionally also before and after every call of a C function) of
frames of the library under test and at the library's own locks.  Which thread runs next is a list of
decisions (step, thread), drawn from the run's seed or given by a replay file.
"""
import _thread
import ast
import os
import sys
import threading
import types

PREFIX = os.path.join(os.path.realpath(os.environ.get('VSIM_REPO', '/repo')),
                      'discorpy') + os.sep
_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_cond = threading.Condition
current = None                 # the active Sim, if any


class Deadlock(BaseException):
    pass


class SimLock:
    """Lock/RLock created by the library: known to the scheduler."""

    def __init__(self, reentrant=False):
        self._lock = _real_rlock() if reentrant else _real_lock()
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = current
        if sim is None or not sim.is_member():
            ok = self._lock.acquire(False)
            if not ok and blocking and timeout != 0:
                if threading.active_count() > 1:
                    ok = self._lock.acquire(blocking, timeout)
                elif timeout is None or timeout < 0:
                    raise Deadlock('no thread is left to release the lock')
            if ok:
                self._count += 1
            return ok
        me = sim.me()
        sim.point(None)
        while True:
            if self._lock.acquire(False):
                self._owner = me
                self._count += 1
                return True
            if not blocking or timeout == 0:
                return False
            if timeout is not None and timeout > 0:
                # simulated time: a bounded wait may elapse at once when
                # nobody else can run
                if not sim.block(self, may_time_out=True):
                    return False
            else:
                sim.block(self)

    def release(self):
        self._lock.release()
        self._count -= 1
        if current is not None and current.is_member():
            current.unblock(self)
            current.point(None)

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._count > 0

    def _at_fork_reinit(self):
        self.__init__(self._re)


def _from_lib():
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(PREFIX)


def _lock():
    return SimLock() if _from_lib() else _real_lock()


def _rlock():
    return SimLock(True) if _from_lib() else _real_rlock()


def install_lock_seam():
    threading.Lock = _lock
    threading.RLock = _rlock


def phil_held():
    try:
        from h5py._objects import phil
        return phil._is_owned()
    except Exception:
        return False


class Sim:
    """Run callables as threads under a seeded or given schedule.

    decisions: list of [step, thread] - at that global step the baton goes to
    that thread (if it can run).  With rng given, decisions are drawn and
    recorded instead.
    """

    def __init__(self, rng=None, decisions=None, p_switch=0.05, calls=False,
                 max_steps=2000000, observer=None, skip=()):
        self.rng = rng
        self.given = {int(s): int(t) for s, t in decisions} \
            if decisions is not None else None
        self.p = p_switch
        self.calls = calls
        self.max_steps = max_steps
        self.step = 0
        self.decisions = []
        self.threads = {}
        self.sem = []
        self.state = []            # 'run', 'done', or the lock waited for
        self.results = []
        self.running = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.deadlock = None
        self.trail = []            # (thread, file:line) at each switch
        self.observer = observer
        self.done_count = 0
        self.overrun = False
        self.skip = skip

    # -------------------------------------------------------- thread identity
    def is_member(self):
        return _thread.get_ident() in self.threads and self.deadlock is None

    def me(self):
        return self.threads[_thread.get_ident()]

    # --------------------------------------------------------------- schedule
    def runnable(self):
        return [i for i, s in enumerate(self.state) if s == 'run']

    def _pick(self, cur_ok):
        """Next thread to run; the current one if cur_ok and not preempted."""
        me = self.running
        s = self.step
        self.step += 1
        if s > self.max_steps:
            self.overrun = True
            return me
        cand = self.runnable()
        if not cand:
            return None
        if self.given is not None:
            t = self.given.get(s)
            if t is not None and t in cand:
                return t
            return me if cur_ok else cand[0]
        if cur_ok:
            if len(cand) < 2 or self.rng.random() >= self.p:
                return me
            t = self.rng.choice([c for c in cand if c != me])
        else:
            t = self.rng.choice(cand)
        self.decisions.append([s, t])
        return t

    def _switch(self, t):
        me = self.running
        if t == me:
            return
        self.running = t
        self.sem[t].release()
        self.sem[me].acquire()
        if self.deadlock:
            raise Deadlock()

    def point(self, frame):
        """A scheduling point of the running thread."""
        if self.deadlock or phil_held():
            return
        if self.observer is not None:
            self.observer(self.running, frame)
        t = self._pick(True)
        if t is not None and t != self.running:
            where = '' if frame is None else '%s:%d' % (
                os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.trail.append((self.running, t, where))
            self._switch(t)

    def block(self, lock, may_time_out=False):
        me = self.running
        self.state[me] = lock
        t = self._pick(False)
        if t is None:
            self.state[me] = 'run'
            if may_time_out:
                return False
            self._dead('all threads wait for locks')
            raise Deadlock()
        self.trail.append((me, t, 'lock'))
        self._switch(t)
        return True

    def unblock(self, lock):
        for i, s in enumerate(self.state):
            if s is lock:
                self.state[i] = 'run'

    def _dead(self, why):
        self.deadlock = why
        for i, s in enumerate(self.sem):
            if i != self.running:
                s.release()
        try:
            self.finished.release()
        except RuntimeError:
            pass

    # ---------------------------------------------------------------- tracing
    def _tracer(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(PREFIX) or \
                code.co_name in self.skip:
            return None
        return self._local

    def _profiler(self, frame, event, arg):
        if event[:2] == 'c_' and frame.f_code.co_filename.startswith(PREFIX):
            self.point(frame)

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'return':
            self.point(frame)
        return self._local

    def _body(self, i, fn):
        self.sem[i].acquire()
        self.threads[_thread.get_ident()] = i
        try:
            if self.deadlock:
                return
            sys.settrace(self._tracer)
            if self.calls:
                sys.setprofile(self._profiler)
            try:
                r = ('ok', fn())
            except Deadlock:
                r = ('deadlock', self.deadlock)
            except BaseException as e:
                r = ('exc', e)
            finally:
                sys.settrace(None)
                sys.setprofile(None)
            self.results[i] = r
        finally:
            self.state[i] = 'done'
            if not self.deadlock:
                if all(s == 'done' for s in self.state):
                    self.finished.release()
                else:
                    t = self._pick(False)
                    if t is None:
                        self._dead('remaining threads wait for locks')
                    else:
                        self.trail.append((i, t, 'end'))
                        self.running = t
                        self.sem[t].release()

    def run(self, fns, timeout=120):
        global current
        n = len(fns)
        self.sem = [_real_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.state = ['run'] * n
        self.results = [None] * n
        current = self
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True)
               for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        self.running = 0
        first = self._pick(False)
        self.running = first
        self.sem[first].release()
        ok = self.finished.acquire(timeout=timeout)
        current = None
        if not ok:
            self.deadlock = self.deadlock or 'no progress in real time'
            return self.results
        if not self.deadlock:
            for t in ths:
                t.join(5)
        return self.results


# --------------------------------------------------------- interrupt injection
_clauses = {}


def cleaning(frame):
    """Does an except or finally clause of the library run?"""
    while frame is not None:
        f = frame.f_code.co_filename
        if f.startswith(PREFIX):
            if f not in _clauses:
                _clauses[f] = lines = set()
                with open(f, encoding='utf-8') as src:
                    tree = ast.parse(src.read())
                for n in ast.walk(tree):
                    if isinstance(n, (ast.Try, ast.TryStar)):
                        for b in [h.body for h in n.handlers] + [n.finalbody]:
                            if b:
                                lines.update(range(b[0].lineno,
                                                   b[-1].end_lineno + 1))
            if frame.f_lineno in _clauses[f]:
                return True
        frame = frame.f_back
    return False


class Injector:
    """Raise an exception at the n-th delivery point of a call.

    Delivery points are the places where CPython lets a signal handler run:
    on entry to a Python function, and after a call of a C function, in frames
    of the library (or on entry to a Python function it calls directly).
    Context-manager exits are left alone: there no Python code can be safe.
    """
    SKIP = {'__exit__', '__enter__', '__del__', 'release', 'acquire', 'close',
            '__aexit__', '_at_fork_reinit'}
    CALLBACKS = ('weakref.py', '_weakrefset.py')
    OPENS = {'open', 'fdopen', 'mkstemp', 'mkdir'}   # not yet in any variable

    def __init__(self, at=None, exc=KeyboardInterrupt, observer=None,
                 only=None, careful=False):
        # careful: for properties about what is cleaned up.  No exception on
        # entry to a helper of the library (between taking a thing and the
        # helper's own try) nor while an except or finally clause of the
        # library runs: no Python code is safe there.
        self.careful = careful
        self.at, self.exc, self.n = at, exc, 0
        self.fired = None
        self.unsafe = False          # fired where no Python code is safe
        self.observer = observer
        self.only = only
        self.labels = None           # a list here records the places

    def _hook(self, frame, event, arg):
        code = frame.f_code
        name = None
        entry = False
        if event == 'c_return':
            if not code.co_filename.startswith(PREFIX):
                return
            name = getattr(arg, '__name__', '')
            if name in self.OPENS:
                return
        elif event == 'call':
            inlib = code.co_filename.startswith(PREFIX)
            if not inlib:
                b = frame.f_back
                if b is None or not b.f_code.co_filename.startswith(PREFIX):
                    return
            if code.co_flags & 0x20:
                return             # a context manager's generator resumes
            if not inlib and os.path.basename(code.co_filename) in \
                    self.CALLBACKS:
                return             # the interpreter drops what these raise
            if not inlib and os.path.basename(code.co_filename) == \
                    'contextlib.py':
                return             # the head of a with statement
            entry = inlib
            if self.careful and entry:
                return
            name = code.co_name
        else:
            return
        if name in self.SKIP:
            return
        if self.only is not None and not self.only(frame, event, name):
            return
        if self.careful and cleaning(frame):
            return
        if self.observer is not None:
            self.observer(frame)
        i = self.n
        self.n += 1
        if self.labels is not None:
            self.labels.append((code.co_filename, frame.f_lineno, event,
                                name))
        if self.at is not None and i == self.at and self.fired is None:
            self.fired = '%s %s at %s:%d' % (
                event, name, os.path.basename(code.co_filename),
                frame.f_lineno)
            self.unsafe = entry or cleaning(frame)
            sys.setprofile(None)
            raise self.exc('injected')

    def __enter__(self):
        sys.setprofile(self._hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
