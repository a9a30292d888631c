"""Forked executions, scratch space, worlds, oracle."""
import fcntl
import gc
import io
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import dump, sched, worlds

TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '90'))


class HarnessError(Exception):
    pass


_depth = 0


def entered():
    """First thing in a forked child: no collection but the ones asked for; and at the first level, none that walks
    the worker's own heap.  (What a simulated process inherits from another simulated one stays collectable.)"""
    global _depth
    gc.disable()
    if not _depth:
        gc.freeze()
    _depth += 1


def _write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _child(w, get):
    """The rest of a forked child: runs what get() returns and writes the outcome to w, which becomes a high
    descriptor, out of the way of what the code under test opens."""
    code = 99
    try:
        try:
            entered()
            w2 = os.dup2(w, 900, inheritable=False)
            os.close(w)
            w = w2
            fn, args, kw = get()
            try:
                v = ('ok', fn(*args, **kw))
            except SystemExit as e:
                v = ('exc', 'SystemExit', repr(e.code))
            except BaseException as e:
                sys.settrace(None)
                v = ('exc', type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            b = pickle.dumps(v)
        except BaseException as e:
            b = pickle.dumps(('exc', 'Harness', repr(e)))
        _write_all(w, struct.pack('<Q', len(b)) + b)
        code = 0
    finally:
        os._exit(code)


def fork(fn, *args, timeout=None, **kw):
    """Runs fn(*args) in a forked child.  Returns ('ok', value), ('exc', type, text), ('exit', code), ('signal', n) or
    ('hang',).  In a worker the child is one of the zygote, if the arguments can be sent there."""
    timeout = timeout or TIMEOUT
    if _zygote and _zygote.owner == os.getpid():
        try:
            b = packed((fn, args, kw))
        except (pickle.PicklingError, AttributeError, TypeError):
            pass
        else:
            return _zygote.call(b, timeout)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(w, lambda: (fn, args, kw))
    os.close(w)
    try:
        v = _receive(r, timeout)
    finally:
        os.close(r)
    if v == ('hang',):
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    return v or _ended(status)


def _ended(status):
    return ('signal', os.WTERMSIG(status)) if os.WIFSIGNALED(status) else ('exit', os.WEXITSTATUS(status))


def _receive(r, timeout, other=None):
    """an outcome from r; ('hang',); or None at the end of r, or when there is something to read from other"""
    end = time.monotonic() + timeout
    buf = bytearray()
    need = None
    while True:
        left = end - time.monotonic()
        rl = left > 0 and select.select([r] + ([other] if other is not None else []), [], [], left)[0]
        if not rl:
            return ('hang',)
        if r not in rl:
            return None
        c = os.read(r, 1 << 20)
        if not c:
            return None
        buf += c
        if need is None and len(buf) >= 8:
            need = struct.unpack_from('<Q', buf)[0] + 8
        if need is not None and len(buf) >= need:
            return pickle.loads(bytes(buf[8:need]))


def packed(x):
    """bytes that depend on the value only, not on which parts of it are the same object"""
    f = io.BytesIO()
    k = pickle.Pickler(f, 4)
    k.fast = True
    k.dump(x)
    return f.getvalue()


_zygote = None


class Zygote:
    """A process that has imported the library and used nothing, and that does nothing but forking: what a child of it
    inherits, down to the addresses, does not depend on what was run before.  The child itself reads what it has to do."""

    def __init__(self, spawn):
        """spawn(descriptors to read commands and data from, to write outcomes and states to) starts it"""
        self.owner = os.getpid()

        def pipe():
            out = []
            for fd in os.pipe():
                out.append(fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 910))
                os.close(fd)
            return out
        cmd, data, res, stat = pipe(), pipe(), pipe(), pipe()
        self.mine = [cmd[1], data[1], res[0], stat[0]]
        theirs = [cmd[0], data[0], res[1], stat[1]]
        self.p = spawn(theirs, self.mine)
        for fd in theirs:
            os.close(fd)
        self.cmd, self.data, self.res, self.stat = self.mine
        os.set_blocking(self.data, False)

    def _state(self, n=8):
        b = b''
        while len(b) < n:
            x = os.read(self.stat, n - len(b))
            if not x:
                raise HarnessError('the zygote is gone')
            b += x
        return struct.unpack('<q', b)[0]

    def call(self, b, timeout):
        os.write(self.cmd, b'f')
        pid = self._state()
        b = memoryview(struct.pack('<Q', len(b)) + b)
        while b:
            rl, wl, _ = select.select([self.stat], [self.data], [])
            if rl:
                break
            try:
                b = b[os.write(self.data, b):]
            except BlockingIOError:
                time.sleep(0.001)
        v = _receive(self.res, timeout, self.stat)
        if v == ('hang',):
            os.kill(pid, signal.SIGKILL)
        status = self._state()
        if v is None:
            while select.select([self.res], [], [], 0)[0]:
                os.read(self.res, 1 << 20)
            v = _ended(status)
        if b or v == ('hang',):
            os.write(self.cmd, b'd')        # what was not read
            self._state()
        return v

    def stop(self):
        for fd in self.mine:
            os.close(fd)
        if self.p:
            self.p.wait()


def serve(cmd, data, res, stat):
    """the life of a zygote"""
    def get():
        b = _read(data, struct.unpack('<Q', _read(data, 8))[0])
        for fd in (cmd, data, stat):
            os.close(fd)
        return pickle.loads(b)
    try:
        while True:
            c = os.read(cmd, 1)
            if not c:
                break
            if c == b'd':
                os.set_blocking(data, False)
                try:
                    while os.read(data, 1 << 16):
                        pass
                except BlockingIOError:
                    pass
                os.set_blocking(data, True)
                os.write(stat, bytes(8))
                continue
            pid = os.fork()
            if pid == 0:
                _child(res, get)
            os.write(stat, struct.pack('<q', pid))
            os.write(stat, struct.pack('<q', os.waitpid(pid, 0)[1]))
    finally:
        os._exit(0)


def _read(fd, n):
    b = bytearray()
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            os._exit(98)
        b += x
    return bytes(b)


def start_zygote():
    """in a worker, before anything is used"""
    global _zygote
    sched.hold_code()

    def spawn(theirs, mine):
        if os.fork() == 0:
            for fd in mine:
                os.close(fd)
            serve(*theirs)
    _zygote = Zygote(spawn)


def value(r, what='child'):
    if r[0] == 'ok':
        return r[1]
    raise HarnessError('%s: %s' % (what, ' '.join(str(x) for x in r)))


def scratch_base():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 300 << 20 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def no_aslr():
    """addresses are part of what a seed decides; where the system refuses, they are not"""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


# kinds of interpreter
ENVS = {'utf8': {}, 'C': {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
        'posix': {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'LANG': 'xx_YY', 'TZ': 'Asia/Tokyo'},
        'O': {'PYTHONOPTIMIZE': '1'}, 'OO': {'PYTHONOPTIMIZE': '2'}, 'malloc': {'PYTHONMALLOC': 'malloc'},
        'dev': {'PYTHONDEVMODE': '1'}}


KINDS = [(0, 'utf8'), (1, 'C'), (2, 'O'), (3, 'posix'), (4, 'OO'), (5, 'malloc'), (1234, 'utf8'), (4294967295, 'dev')]


def kind(r, tier):
    """hash seed and environment of a process; few combinations in the quick tier, as each needs an interpreter"""
    if tier == 'quick' or r.random() < 0.8:
        return list(r.choice(KINDS))
    return [r.choice([0, 1, 2, 3, 77, 991]), r.choice(sorted(ENVS))]


def helper(hashseed, env, modules, cwd):
    """a zygote of another kind of interpreter"""
    def spawn(theirs, mine):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), **ENVS[env])
        return subprocess.Popen([sys.executable, '-m', 'simkit.helper', ','.join(map(str, theirs))] + modules, env=e, cwd=cwd, pass_fds=theirs,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=no_aslr)
    return Zygote(spawn)


class Ctx:
    """Per worker."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.worlds = {}
        self.cache = {}
        self.n = 0
        self.helpers = {}
        self.module = None

    def elsewhere(self, hashseed, env, fn, *args):
        """runs fn in a child of an interpreter with this hash seed and environment; results as of fork"""
        k = (hashseed, env)
        h = self.helpers.pop(k, None)
        if h is None:
            if len(self.helpers) >= 8:
                self.helpers.pop(next(iter(self.helpers))).stop()
            h = helper(hashseed, env, [fn.__module__], self.scratch)
        self.helpers[k] = h
        return h.call(packed((fn, args, {})), TIMEOUT)

    def fork(self, fn, *a, **k):
        return fork(fn, *a, **k)

    def tmp(self, tag='t'):
        self.n += 1
        d = os.path.join(self.scratch, '%s%07d' % (tag, self.n))
        os.makedirs(d)
        return d

    def rmtree(self, d):
        assert d.startswith(self.scratch + '/')
        shutil.rmtree(d, ignore_errors=True)

    def world(self, profile, seed):
        k = (profile, seed)
        w = self.worlds.get(k)
        if w is None:
            if len(self.worlds) > 60:
                for kk in [x for x in self.worlds if x[1] < 900][:20]:
                    self.rmtree(self.worlds.pop(kk).dir)
            d = os.path.join(self.scratch, 'w-%s-%s' % k)
            w = worlds.World(profile, seed, d)
            worlds.write(w.spec, d)
            err = worlds.build(w.spec, d, fork)
            if err:
                raise HarnessError('world %s: %s' % (w.key, err))
            self.worlds[k] = w
        return w

    def fresh_many(self, w, reqs, config=None):
        """{(text, mode): outcome} of fresh processes; reqs: iterable of (text, mode)"""
        config = config or w.config
        todo = [q for q in dict.fromkeys((t, m) for t, m in reqs) if (w.key, config, q) not in self.cache]
        if todo:
            if len(self.cache) > 60000:
                self.cache.clear()
            r = value(fork(_fresh, config, todo), 'oracle')
            for q, v in zip(todo, r):
                self.cache[(w.key, config, q)] = v
            todo = None
        return {q: self.cache[(w.key, config, q)] for q in dict.fromkeys((t, m) for t, m in reqs)}

    # dictionaries by dict_type: stand-ins for the sudachidict packages
    TYPES = {'core': ('default', 900), 'small': ('tiny', 901), 'full': ('std', 902)}

    def packages(self):
        """directory with sudachidict_small, _core, _full; to be put on sys.path"""
        d = os.path.join(self.scratch, 'packages')
        if not os.path.exists(d):
            for t, ws in self.TYPES.items():
                w = self.world(*ws)
                p = os.path.join(d, 'sudachidict_' + t)
                os.makedirs(os.path.join(p, 'resources'))
                open(os.path.join(p, '__init__.py'), 'w').close()
                shutil.copy(os.path.join(w.dir, 'system.dic'), os.path.join(p, 'resources', 'system.dic'))
                if t == 'core':     # with the connection ids of the settings that come with the library
                    with open(os.path.join(os.path.dirname(self.scratch), 'lock'), 'w') as f:
                        fcntl.flock(f, fcntl.LOCK_EX)
                        shared = os.path.join(os.path.dirname(self.scratch), 'core.dic')
                        if not os.path.exists(shared):
                            value(fork(_enlarge, w, shared), 'the core dictionary')
                    _sparse(shared, os.path.join(p, 'resources', 'system.dic'))
        return d

    def fresh(self, w, text, mode, config=None):
        return self.fresh_many(w, [(text, mode)], config)[(text, mode)]


IDS = (4785, 4787, 4791, 4794, 5129, 5139, 5687, 5966, 5968)     # those of the settings that come with the library


def _enlarge(w, out):
    m = w.spec.files['matrix.def'].splitlines()
    m[0] = '6000 6000'
    r = random.Random(w.key)
    m += ['%d %d %d' % (i, j, r.randrange(-2000, 4000)) for i in IDS for j in IDS + (0, 1)]
    name = out + '.matrix'
    with open(name, 'w') as f:
        f.write('\n'.join(m) + '\n')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    worlds.cli(['build', '-o', out + '.full', '-m', name, os.path.join(w.dir, 'lex.csv')])
    _sparse(out + '.full', out)
    os.remove(out + '.full')
    os.remove(name)


def _sparse(a, b):
    """copies a file; what is zero there becomes holes"""
    zero = bytes(65536)
    with open(a, 'rb') as f, open(b, 'wb') as g:
        while True:
            x = f.read(65536)
            if not x:
                break
            if x == zero:
                g.seek(len(x), 1)
            else:
                g.write(x)
        g.truncate()


def _fresh(config, todo):
    """in a child: opens the dictionary, then one grandchild per request"""
    from sudachipy.dictionary import Dictionary
    kw = json.loads(config) if config.startswith('{') else {'config_path': config}
    pk = kw.pop('__path', None)
    if pk:
        sys.path.insert(0, pk)
    try:
        d = Dictionary(**kw)
    except Exception as e:
        return [['noopen', type(e).__name__]] * len(todo)
    out = []
    for text, mode in todo:
        r = fork(_one, d, text, mode, timeout=TIMEOUT / 2)
        out.append(r[1] if r[0] == 'ok' else ['died'] + list(r[:2]))
    return out


def _one(d, text, mode):
    return dump.tok(d.create(), text, mode)


def log_digest(x):
    return dump.digest(x)
