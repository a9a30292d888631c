"""Several simulated processes: real forked processes, of which one runs at a time, from gate to gate.

Gates are the system calls on tracked files (shim.c), chosen lines of library code, and explicit ones.  The coordinator
(the worker) decides at every gate who goes on, and may end a process there, as kill -9 does."""
import hashlib
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import zlib

from . import core, shim

G, B, F, E = (ord(x) for x in 'gbfe')


def random_policy(r):
    k = r.choice(['random', 'burst', 'burst', 'prio'])
    d = {'kind': k, 'seed': r.getrandbits(40)}
    if k == 'burst':
        d['keep'] = r.choice([0.5, 0.8, 0.95, 0.99])
    if k == 'prio':
        d['change'] = r.choice([0.02, 0.1])
    return d


class _Policy:
    def __init__(self, d):
        self.d = d
        self.r = random.Random(d.get('seed', 0))
        self.prio = {}
        self.n = 0

    def choose(self, cands, cur):
        d = self.d
        if d['kind'] == 'replay':
            i = self.n
            self.n += 1
            for a, k in d['runs']:
                if i < k:
                    return a if a in cands else cur if cur in cands else cands[0]
                i -= k
            return cur if cur in cands else cands[0]
        if d['kind'] == 'burst' and cur in cands and self.r.random() < d['keep']:
            return cur
        if d['kind'] == 'prio':
            for c in cands:
                self.prio.setdefault(c, self.r.random())
            best = max(cands, key=lambda c: self.prio[c])
            if self.r.random() < d['change']:
                self.prio[best] = self.r.random() - 1
                best = max(cands, key=lambda c: self.prio[c])
            return best
        return self.r.choice(cands)


class Board:
    """slots for up to n processes"""

    def __init__(self, n):
        import fcntl
        self.n = n
        self.mem = mmap.mmap(-1, 64)
        self.fds = []

        def pipe():
            out = []
            for fd in os.pipe():
                out.append(fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 700))
                os.close(fd)
            self.fds += out
            return out
        self.go = [pipe() for _ in range(n)]
        self.at = [pipe() for _ in range(n)]
        self.res = [pipe() for _ in range(n)]

    def close(self):
        for fd in self.fds:
            os.close(fd)
        self.mem.close()

    # -- in the simulated processes
    def now(self):
        return struct.unpack_from('<q', self.mem)[0]

    def enter(self, k, seed):
        self.k = k
        shim.random(seed * 64 + k)
        random.seed(seed * 64 + k)
        shim.gate_fds(self.go[k][0], self.at[k][1])
        self.gate()

    def gate(self, a=0, b=0):
        shim._l.sim_gate(G, a, b)

    def leave(self, v):
        data = pickle.dumps(v)
        core._write_all(self.res[self.k][1], struct.pack('<q', len(data)) + data)
        shim.gate_fds(-1, -1)
        core._write_all(self.at[self.k][1], struct.pack('<3i', E, 0, 0))

    def fork(self, k, seed, fn, *args):
        """a simulated process starts another one; returns its pid"""
        shim_in = (self.go[self.k][0], self.at[self.k][1])
        tr = sys.gettrace()
        sys.settrace(None)          # what runs around a fork must not wait at a gate
        shim.gate_fds(-1, -1)
        pid = os.fork()
        if pid == 0:
            self._child(k, seed, fn, args)
        core._write_all(self.at[self.k][1], struct.pack('<3i', F, k, pid))
        shim.gate_fds(*shim_in)
        sys.settrace(tr)
        return pid

    def _child(self, k, seed, fn, args):
        code = 99
        try:
            try:
                self.enter(k, seed)
                v = ('ok', fn(self, *args))
            except SystemExit as e:
                v = ('exc', 'SystemExit', repr(e.code))
            except BaseException as e:
                sys.settrace(None)
                v = ('exc', type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
            shim.stop()
            sys.settrace(None)
            self.leave(v)
            code = 0
        finally:
            os._exit(code)


def lines(board, seed, p, hot=None):
    """gates at lines of library code, each with probability p; hot: [seed, n, probability] - in about every n-th
    function the probability is another one"""
    from .sched import _pkg_dir
    r = random.Random(seed)
    pkg = _pkg_dir()
    rnd = r.random
    gate = board.gate
    prob = {}

    def traced(p):
        def local(frame, event, arg):
            if rnd() < p:
                gate(99, 0)
            return local
        return local

    cold = traced(p)
    warm = traced(hot[2]) if hot else None

    def glob(frame, event, arg):
        c = frame.f_code
        x = prob.get(c)
        if x is None:
            x = p, cold
            if not c.co_filename.startswith(pkg):
                x = 0, None
            elif hot and zlib.crc32(('%s/%s' % (hot[0], c.co_qualname)).encode()) % hot[1] == 0:
                x = hot[2], warm
            prob[c] = x
        if x[1] is None:
            return None
        if rnd() < x[0]:
            gate(99, 0)
        return x[1]
    return glob


def gen_hot(r):
    return [r.getrandbits(30), r.choice([3, 8, 20, 40]), r.choice([0.2, 0.5, 0.9])] if r.random() < 0.5 else None


class Run:
    """starts: [(slot, earliest step, fn, args)], where fn also gets the board; kills: {slot: number of the gate at which it ends}"""

    def __init__(self, n, starts, policy, seed, kills=None, limit=200000, timeout=60):
        self.board = Board(n)
        self.pol = _Policy(policy)
        self.seed, self.kills, self.limit, self.timeout = seed, kills or {}, limit, timeout
        self.starts = starts
        self.state = {}
        self.pid = {}
        self.pfd = {}
        self.buf = {}
        self.results = {}
        self.gates = {}
        self.runs = []
        self.sig = hashlib.sha256()
        self.step = 0
        self.switches = 0
        self.failure = None
        self.killed = []

    def _register(self, k, pid):
        self.pid[k] = pid
        self.pfd[k] = os.pidfd_open(pid)
        self.buf[k] = bytearray()
        self.gates[k] = 0
        self.state[k] = 'run'

    def _wait(self, k):
        """until process k is at a gate or has ended"""
        b = self.board
        end = time.monotonic() + self.timeout
        while True:
            fds = [b.at[k][0], b.res[k][0], self.pfd[k]]
            rl, _, _ = select.select(fds, [], [], max(0, end - time.monotonic()))
            if not rl:
                self.failure = 'process %d does not come to its next step' % k
                return False
            if fds[1] in rl:
                self.buf[k] += os.read(fds[1], 1 << 20)
            elif fds[0] in rl:
                what, x, y = struct.unpack('<3i', os.read(fds[0], 12))
                if what == F:
                    self._register(x, y)
                    if not self._wait(x):
                        return False
                    continue
                if what == E:
                    need = struct.unpack_from('<q', self.buf[k])[0] + 8
                    while len(self.buf[k]) < need:
                        self.buf[k] += os.read(fds[1], 1 << 20)
                    self.results[k] = pickle.loads(bytes(self.buf[k][8:need]))
                    self.state[k] = 'done'
                    return True
                self.gates[k] += 1
                self.state[k] = 'blocked' if what == B else 'gate'
                self.sig.update(b'%d %d %d %d;' % (k, what, x, y))
                return True
            else:
                self.state[k] = 'done'
                if k not in self.results:
                    self.results[k] = ('died',)
                return True

    def go(self):
        try:
            self._go()
        finally:
            for k, pid in self.pid.items():
                if self.state[k] != 'done':
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
            self.status = {}
            for k, pid in self.pid.items():
                try:
                    self.status[k] = os.waitpid(pid, 0)[1]
                except ChildProcessError:
                    pass
                os.close(self.pfd[k])
            self.board.close()
        for k, v in self.results.items():
            if v == ('died',) and k in self.status:
                s = self.status[k]
                self.results[k] = ('signal', os.WTERMSIG(s)) if os.WIFSIGNALED(s) else ('exit', os.WEXITSTATUS(s))
        return self.results

    def _go(self):
        b = self.board
        pend = sorted(self.starts, key=lambda s: s[1])
        cur = -1
        while True:
            while pend and (pend[0][1] <= self.step or not self._alive()):
                k, _, fn, args = pend.pop(0)
                pid = os.fork()
                if pid == 0:
                    core.entered()
                    b._child(k, self.seed, fn, args)
                self._register(k, pid)
                if not self._wait(k):
                    return
            cands = self._alive()
            if not cands:
                return
            free = [k for k in cands if self.state[k] == 'gate']
            if not free:
                # every process waits for a file lock: let each try again, once
                before = {k: self.gates[k] for k in cands}
                for k in cands:
                    if self.state[k] == 'blocked':
                        self._give(k)
                        if self.failure:
                            return
                if all(self.state.get(k) == 'blocked' and self.gates[k] <= before[k] + 2 for k in cands):
                    self.stuck = getattr(self, 'stuck', 0) + 1
                    if self.stuck > 3:
                        self.failure = 'deadlock: every process waits for a file lock'
                        return
                continue
            self.stuck = 0
            k = self.pol.choose(cands, cur)
            if k != cur:
                self.switches += 1
            cur = k
            if self.runs and self.runs[-1][0] == k:
                self.runs[-1][1] += 1
            else:
                self.runs.append([k, 1])
            self.step += 1
            struct.pack_into('<q', b.mem, 0, self.step)
            if self.step > self.limit:
                self.failure = 'no end after %d steps' % self.limit
                return
            self._give(k)
            if self.failure:
                return

    def _alive(self):
        return sorted(k for k, s in self.state.items() if s in ('gate', 'blocked'))

    def _give(self, k):
        c = b'g'
        if self.kills.get(k) is not None and self.gates[k] >= self.kills[k]:
            c = b'k'
            self.killed.append(k)
        self.state[k] = 'run'
        os.write(self.board.go[k][1], c)
        self._wait(k)

    def signature(self):
        return self.sig.hexdigest()[:16]

    def replay_policy(self):
        return {'kind': 'replay', 'runs': self.runs}


class Result:
    pass


def run(ctx, *args):
    """a Run(*args) with its coordinator in a process of its own"""
    r = Result()
    r.__dict__ = core.value(ctx.fork(_run, args, timeout=400), 'coordinator')
    return r


def _run(args):
    x = Run(*args)
    x.go()
    return {'results': x.results, 'failure': x.failure, 'killed': x.killed, 'switches': x.switches, 'step': x.step, 'sig': x.signature(),
            'replay': x.replay_policy()}
