"""Simulated threads: real threads of which exactly one runs at a time; a seeded policy decides at every traced event
of library code (call, line), and at every lock operation, who goes on.  Also: asynchronous
exceptions raised at the k-th event of a thread."""
import gc
import hashlib
import os
import random
import sys
import threading
import time
import _thread

import _testcapi

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_get_ident = _thread.get_ident
_real_sleep = time.sleep
current = None      # the active Sched


def _managed():
    s = current
    if s is None or _forking:
        return None
    return s if _get_ident() in s.idents else None


_forked = False
_forking = False


def _set_forking(v):
    global _forking
    _forking = v


def after_fork():
    """in a process forked by a simulated thread: the other threads are gone, so nobody releases what they hold"""
    global current, _forked, _forking
    if current is not None:
        current, _forked = None, True
        sys.settrace(None)
    _forking = False


def _plain(lock, blocking, timeout):
    if _forked and blocking and timeout < 0:
        if lock.acquire(False):
            return True
        raise Deadlock('a lock that nobody will release')
    return lock.acquire(blocking, timeout)


class SimLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _managed()
        if s is None:
            return _plain(self._l, blocking, timeout)
        s.point('lock', None)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        while True:
            if not s.block(lambda: not self._l.locked(), timeout is not None and timeout >= 0):
                return False
            if self._l.acquire(False):
                return True

    __enter__ = acquire

    def release(self):
        self._l.release()
        s = _managed()
        if s is not None:
            s.point('unlock', None)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class SimRLock:
    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        s = _managed()
        if s is None:
            if not _plain(self._l, blocking, timeout):
                return False
        else:
            s.point('lock', None)
            while not self._l.acquire(False):
                if not blocking:
                    return False
                if not s.block(lambda: not self._l.locked(), timeout is not None and timeout >= 0):
                    return False
        self._owner, self._count = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()
            s = _managed()
            if s is not None:
                s.point('unlock', None)

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _release_save(self):
        n, self._count, self._owner = self._count, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        s = _managed()
        if s is None:
            self._l.acquire()
        else:
            while not self._l.acquire(False):
                s.block(lambda: not self._l.locked(), False)
        self._owner, self._count = _get_ident(), n

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._count = None, 0


def patch():
    """Before the library is imported: locks made from now on are simulated when a simulated thread uses them."""
    import functools
    os.register_at_fork(before=lambda: _set_forking(True), after_in_parent=lambda: _set_forking(False),
                        after_in_child=after_fork)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    for m in (functools,):
        if hasattr(m, 'RLock'):
            m.RLock = SimRLock

    def sleep(t):
        s = _managed()
        if s is None:
            return _real_sleep(t)
        s.slept += t
        s.yield_()
    time.sleep = sleep


class Deadlock(BaseException):
    pass


# ---- policies ----
class Replay:
    """decisions: {step: thread}; otherwise keep running, or the lowest runnable"""
    def __init__(self, decisions):
        self.d = {int(k): v for k, v in decisions}

    def choose(self, s, step, cur, runnable, where):
        t = self.d.get(step)
        if t is not None and t in runnable:
            return t
        return cur if cur in runnable else runnable[0]


class Random:
    def __init__(self, r, p):
        self.r, self.p = r, p

    def choose(self, s, step, cur, runnable, where):
        if cur in runnable and self.r.random() >= self.p:
            return cur
        others = [t for t in runnable if t != cur] or runnable
        return self.r.choice(others)


class Hot(Random):
    """a random subset of functions or lines is hot"""

    def __init__(self, r, p, hot, nth, by_line):
        super().__init__(r, p)
        self.hot, self.nth, self.by_line = hot, nth, by_line
        self.salt = '%d' % r.getrandbits(32)
        self.memo = {}

    def choose(self, s, step, cur, runnable, where):
        p = self.p
        if where is not None:
            k = where if self.by_line else where[0]
            h = self.memo.get(k)
            if h is None:
                h = self.memo[k] = hashlib.md5((self.salt + repr(k)).encode()).digest()[0] % self.nth == 0
            if h:
                p = self.hot
        if cur in runnable and self.r.random() >= p:
            return cur
        others = [t for t in runnable if t != cur] or runnable
        return self.r.choice(others)


class PCT:
    def __init__(self, r, n, depth, length):
        self.r = r
        self.prio = list(range(depth, depth + n))
        r.shuffle(self.prio)
        self.points = {r.randrange(1, length): i for i in range(depth)}

    def choose(self, s, step, cur, runnable, where):
        i = self.points.get(step)
        if i is not None:
            self.prio[cur] = i
        return max(runnable, key=lambda t: self.prio[t])


def policy(d, n):
    """from its JSON description"""
    k = d['kind']
    if k == 'replay':
        return Replay(d['decisions'])
    r = random.Random('policy/%s' % d['seed'])
    if k == 'random':
        return Random(r, d['p'])
    if k == 'hot':
        return Hot(r, d['p'], d['hot'], d['nth'], d['by_line'])
    return PCT(r, n, d['depth'], d['length'])


def random_policy(r, length=20000):
    k = r.choice(['random', 'random', 'hot', 'hot', 'hot', 'pct'])
    d = {'kind': k, 'seed': r.getrandbits(40)}
    if k == 'random':
        d['p'] = r.choice([0.5, 0.2, 0.05, 0.01, 0.002])
    elif k == 'hot':
        d.update(p=r.choice([0.0005, 0.003, 0.02]), hot=r.choice([0.2, 0.5, 0.9]), nth=r.choice([3, 8, 20]),
                 by_line=r.random() < 0.5)
    else:
        d.update(depth=r.choice([1, 2, 3, 5, 8]), length=length)
    return d


class _T:
    __slots__ = ('i', 'fn', 'sem', 'done', 'result', 'blocked', 'timed', 'events', 'fault', 'unwinding')


class Sched:
    def __init__(self, pol, step_limit=3000000, pkg=None):
        self.pol = pol
        self.threads = []
        self.idents = {}
        self.step = 0
        self.cur = -1
        self.slept = 0.0
        self.decisions = []
        self.sig = hashlib.sha256()
        self.switches = 0
        self.failure = None
        self.limit = step_limit
        self.main = _real_lock()
        self.main.acquire()
        self.pkg = pkg or _pkg_dir()
        self.fired = 0
        self.progress = 0

    def spawn(self, fn, fault=None):
        t = _T()
        t.i, t.fn, t.done, t.result, t.blocked, t.timed, t.events = len(self.threads), fn, False, None, None, False, 0
        t.fault = fault         # (event number, exception type) or None
        t.unwinding = None
        t.sem = _real_lock()
        t.sem.acquire()
        self.threads.append(t)
        return t.i

    # -- scheduling
    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.blocked is not None and not t.blocked():
                continue
            out.append(t.i)
        return out

    def point(self, what, where):
        if self.failure is not None:
            self._die()
        self.step += 1
        if self.step > self.limit:
            self._fail('no end after %d steps' % self.limit)
        cur = self.cur
        r = [t.i for t in self.threads if not t.done and (t.blocked is None or t.blocked())]
        if len(r) == 1 and r[0] == cur:
            return
        nxt = self.pol.choose(self, self.step, cur, r, where)
        if nxt != cur:
            self._note(nxt, where)
            self._switch(nxt)

    def yield_(self):
        cur = self.cur
        r = [t for t in self._runnable() if t != cur]
        self.step += 1
        if r:
            nxt = r[(self.step + cur) % len(r)]
            d = getattr(self.pol, 'd', None)
            if d is not None and d.get(self.step) in r:
                nxt = d[self.step]
            self._note(nxt, None)
            self._switch(nxt)

    def _note(self, nxt, where):
        self.switches += 1
        self.decisions.append((self.step, nxt))
        self.sig.update(repr((nxt, where)).encode())

    def _switch(self, nxt):
        me = self.threads[self.cur]
        self.cur = nxt
        self.threads[nxt].sem.release()
        me.sem.acquire()
        if self.failure is not None:
            self._die()

    def block(self, pred, timed):
        """current thread waits until pred(); False when a timed wait gives up"""
        me = self.threads[self.cur]
        me.blocked, me.timed = pred, timed
        try:
            while True:
                if pred():
                    return True
                r = self._runnable()
                if not r:
                    # time passes: the waits with a timeout end
                    tm = [t for t in self.threads if not t.done and t.timed]
                    if me in tm:
                        return False
                    if tm:
                        t = tm[0]
                        t.blocked = None
                        r = [t.i]
                    else:
                        self._fail('deadlock: every thread waits for a lock')
                self.step += 1
                nxt = self.pol.choose(self, self.step, self.cur, r, None)
                self._note(nxt, None)
                if nxt == me.i:
                    continue
                self._switch(nxt)
                if timed and me.blocked is None:
                    return False
        finally:
            me.blocked, me.timed = None, False

    def _fail(self, msg):
        self.failure = msg
        self.main.release()
        self._die()

    def _die(self):
        # the process is thrown away; park this thread
        while True:
            _real_lock_park()

    # -- tracing
    def _make_trace(self, t):
        pkg = self.pkg
        n = len(pkg)
        names = {}

        def local(frame, event, arg):
            if event == 'exception':
                t.unwinding = id(frame)
                return local
            if event == 'return':
                return local
            t.events += 1
            f = t.fault
            if f is not None and t.events >= f[0] and t.unwinding != id(frame) and sys.exception() is None:
                t.fault = None
                self.fired += 1
                raise f[1]('injected')
            t.unwinding = None
            self.point(event, (frame.f_code.co_qualname, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            c = frame.f_code
            ok = names.get(c)
            if ok is None:
                ok = names[c] = c.co_filename[:n] == pkg
            if not ok:
                return None
            t.events += 1
            t.unwinding = None
            f = t.fault
            if f is not None and t.events >= f[0] and sys.exception() is None:
                t.fault = None
                self.fired += 1
                raise f[1]('injected')
            self.point(event, (c.co_qualname, 0))
            return local
        return glob

    def _main(self, t):
        t.sem.acquire()
        self.idents[_get_ident()] = t.i
        tr = self._make_trace(t)
        sys.settrace(tr)
        try:
            t.result = ('ok', t.fn())
        except BaseException as e:
            sys.settrace(None)
            import traceback
            t.result = ('exc', type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:])
        sys.settrace(None)
        t.done = True
        if self.failure is not None:
            self._die()
        r = self._runnable()
        if not r:
            left = [x for x in self.threads if not x.done]
            tm = [x for x in left if x.timed]
            if tm:
                tm[0].blocked = None
                r = [tm[0].i]
            elif left:
                self.failure = 'deadlock: every remaining thread waits for a lock'
                self.main.release()
                return
            else:
                self.main.release()
                return
        self.step += 1
        nxt = self.pol.choose(self, self.step, t.i, r, None)
        if nxt not in r:
            nxt = r[0]
        self._note(nxt, None)
        self.cur = nxt
        self.threads[nxt].sem.release()

    def run(self):
        """returns the list of results; self.failure is set on deadlock or livelock"""
        global current
        current = self
        for t in self.threads:
            _thread.start_new_thread(self._main, (t,))
        first = self.pol.choose(self, 0, 0, [t.i for t in self.threads], None)
        self.decisions.append((0, first))
        self.cur = first
        self.threads[first].sem.release()
        self.main.acquire()
        current = None
        return [t.result for t in self.threads]

    def signature(self):
        return self.sig.hexdigest()[:16]


def _real_lock_park():
    l = _real_lock()
    l.acquire()
    l.acquire()


def _pkg_dir():
    import sudachipy
    return os.path.dirname(os.path.abspath(sudachipy.__file__)) + os.sep


# ---- single thread: events counted, exception at the k-th ----
class NoMemory(MemoryError):
    """stands for failing allocations, where an exception to be raised is asked for"""


_held_modules = set()


def hold_code():
    """CPython 3.12 releases the code object of a nested function (lambda, generator expression) once too often when
    there is no memory to make the function: those of all modules get references that this can use up."""
    import ctypes
    import types
    seen = set()

    def code(c):
        if id(c) not in seen:
            seen.add(id(c))
            ctypes.c_ssize_t.from_address(id(c)).value += 1 << 24
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    code(k)

    def of(v, mod, depth):
        v = getattr(v, '__func__', v)
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                of(f, mod, depth)
        elif isinstance(v, types.FunctionType):
            of(getattr(v, '__wrapped__', None), mod, depth)
            code(v.__code__)
        elif isinstance(v, type) and depth and v.__module__ == mod:
            for x in list(vars(v).values()):
                of(x, mod, depth - 1)
    for name, m in list(sys.modules.items()):
        if name not in _held_modules:
            _held_modules.add(name)
            for v in list(getattr(m, '__dict__', {}).values()):
                of(v, name, 3)


class Tracer:
    """with Tracer(k, exc) as t: call(); t.events, t.fired"""

    def __init__(self, k=None, exc=None, pkg=None):
        self.k, self.exc = k, exc
        self.events = 0
        self.fired = None
        self.pkg = pkg or _pkg_dir()
        self.names = {}
        self.end = None
        self.unwinding = None

    def _hit(self, frame):
        self.events += 1
        # not inside an exception handler: raising from a trace function at the end of one leaves the handled
        # exception in place for good (CPython 3.12), which no real exception does
        # (nor where one begins, which is the line event after the exception event)
        if self.unwinding == id(frame):
            self.unwinding = None
            return
        if self.k is not None and self.events >= self.k and sys.exception() is self.outer:
            self.fired = '%s:%d' % (frame.f_code.co_qualname, frame.f_lineno)
            sys.settrace(None)
            raise self.exc('injected')

    def local(self, frame, event, arg):
        if event == 'line':
            self._hit(frame)
        elif event == 'exception':
            self.unwinding = id(frame)
        return self.local

    def glob(self, frame, event, arg):
        c = frame.f_code
        ok = self.names.get(c)
        if ok is None:
            ok = self.names[c] = c.co_filename.startswith(self.pkg)
        if not ok:
            return None
        self.unwinding = None
        self._hit(frame)
        return self.local

    def __enter__(self):
        if self.exc is NoMemory:
            hold_code()
            # the k-th allocation, and sometimes some more, fail: of the interpreter, the library, the compiled modules
            gc.collect()                # also empties the free lists: what is allocated does not depend on them
            sys._clear_type_cache()
            stop = self.k + (1, 1, 1, 4, 40)[self.k % 5]
            self.end = _testcapi.remove_mem_hooks
            _testcapi.set_nomemory(self.k, stop)
            return self
        self.outer = sys.exception()
        sys.settrace(self.glob)
        return self

    def __exit__(self, t, v, tb):
        if self.end is not None:
            self.end()
            if t is not None:
                self.fired = 'an allocation'
            return False
        sys.settrace(None)
        return False
