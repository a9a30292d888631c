"""Pieces shared by the workloads."""
import functools
import math
import random

from simkit import sched, shim, worlds


class Alarm(Exception):
    """what a signal handler of the application may raise"""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Alarm': Alarm, 'OSError': OSError, 'NoMemory': sched.NoMemory}
RAISED = ['KeyboardInterrupt', 'MemoryError', 'Alarm', 'OSError']
ANY = RAISED + ['NoMemory']


@functools.lru_cache(200)
def spec(profile, seed):
    return worlds.make(profile, seed)


def pick_world(r, pool, n):
    """pool: list of profiles with repetition"""
    p = r.choice(pool)
    return [p, r.randrange({'big': 2, 'users': 3}.get(p, n))]


def related(r, t):
    """a text that shares structure with t"""
    k = r.random()
    if not t:
        return '東'
    if k < 0.3:
        return t[:max(1, len(t) // 2)]
    if k < 0.5:
        return t[-max(1, len(t) // 2):]
    if k < 0.65:
        return t + t[:3]
    if k < 0.8:
        i = r.randrange(len(t))
        return t[:i] + r.choice('東あア1,a。') + t[i + 1:]
    return t


def text(r, s):
    if r.random() < 0.75:
        return r.choice(s.texts)
    return worlds.text(r, s.heads)


def mode(r):
    return r.choice(['A', 'B', 'C', 'C', None])


def event(r, t):
    """number of a traced event inside a tokenize call on t; some lie behind its end"""
    est = 200 * len(t) + 300
    if r.random() < 0.5:
        return int(math.exp(r.uniform(0, math.log(est)))) or 1
    return r.randrange(1, est)


def sweep_texts(s, size=50):
    h = s.heads
    return [''.join(h[i:i + size]) for i in range(0, len(h), size)]


def drop_chunks(xs):
    """smaller lists, big cuts first"""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield xs[:i] + xs[i + size:]
        size //= 2


def shorter_texts(t):
    n = len(t)
    if n <= 1:
        return
    for x in (t[:n // 2], t[n // 2:], t[:-1], t[1:]):
        if x and x != t:
            yield x


def killed(r, case):
    """CPython 3.12 itself does not survive all failing allocations (PyFunction_New)"""
    return r[0] == 'signal' and r[1] in (6, 11) and 'NoMemory' in repr(case)


def gen_clock(r, p=0.25):
    """0, or the seed of clocks that jump"""
    return r.getrandbits(40) | 1 if r.random() < p else 0


def clocked(f):
    """the clocks of the process that runs f(case, ...) jump at every reading, if the case says so"""
    @functools.wraps(f)
    def g(case, *a):
        if not case.get('clock'):
            return f(case, *a)
        shim.wild(case['clock'])
        try:
            r = f(case, *a)
        finally:
            n, sec = shim.wild_reads(), shim.wild_seconds()
            shim.wild(0)
        st = r.get('stats') if isinstance(r, dict) else None
        if st is not None:
            st['processes with jumping clocks'] = 1
            if n:
                st['fault readings of jumping clocks'] = n
                st['simulated hours on jumping clocks'] = sec // 3600
        return r
    return g
