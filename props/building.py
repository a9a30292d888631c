"""Running the command line under the system-call seam; the simulated disk for power loss."""
import csv
import errno
import gc
import io
import math
import os
import random
import signal
import sys

from simkit import sched, shim, worlds
from . import common as c

T0 = 1600000000
ERRNO = {'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'], 'read': ['EIO', 'EISDIR'], 'open': ['EMFILE', 'EACCES', 'EIO', 'ENFILE', 'ENOSPC'],
         'close': ['EIO', 'ENOSPC'], 'fsync': ['EIO', 'ENOSPC'], 'rename': ['EIO', 'EACCES', 'ENOSPC'], 'mmap': ['ENOMEM'],
         'unlink': ['EIO'], 'stat': ['EIO', 'EACCES', 'ENOMEM'], 'meta': ['EPERM'], 'truncate': ['EIO']}
KIND = {v: k for k, v in shim.KINDS.items()}


def gen_fault(r, crash=True, kinds=None, span=None, signal=False):
    """[kind name, index, count, action, errno or amount, amount]"""
    kind = r.choice(kinds or ['write'] * 5 + ['read', 'read', 'open', 'open', 'close', 'close', 'fsync', 'rename', 'mmap', 'any', 'any'])
    span = span or {'write': 40, 'read': 25, 'any': 80}.get(kind, 8)
    idx = r.randrange(span) if r.random() < 0.6 else int(math.exp(r.uniform(0, math.log(span)))) - 1
    if signal and r.random() < 0.15:        # ctrl-C in the middle of a call
        return [kind, idx, 1, 'interrupt', int(r.random() < 0.5), 0]
    acts = ['error'] * 3
    if kind == 'write':
        acts += ['short', 'torn-write-error']
    if kind == 'read':
        acts += ['short']
    if crash:
        acts += ['crash-before', 'crash-after'] + (['torn-write-crash'] * 2 if kind in ('write', 'any') else [])
    act = r.choice(acts)
    if act == 'short':
        return [kind, idx, r.choice([1, 5, -1]), act, r.choice([1, 3, 100, 1000]), 0]
    if act == 'torn-write-crash':
        return [kind, idx, 1, act, r.randrange(256), 0]
    if act.startswith('crash'):
        return [kind, idx, 1, act, 0, 0]
    e = r.choice(ERRNO.get(kind, ['EIO']))
    return [kind, idx, r.choice([1, 1, -1, 2]), act, e, r.randrange(256)]


def aim(r, files, crash=False, kinds=('open', 'read', 'read', 'read', 'mmap', 'close', 'stat'), signal=False):
    """a fault of the calls on one file only, and transfer sizes that put a failing read or write into the middle of it"""
    kind = r.choice(kinds)
    f = gen_fault(r, crash, [kind], r.choice([2, 6, 20]) if kind in ('read', 'write') else 2, signal)
    caps = {}
    if kind in ('read', 'write') and r.random() < 0.8:
        caps = {kind: [r.choice([30, 100, 250, 700])]}
        if r.random() < 0.3:
            caps[kind].append(-1)
    return f + [r.choice(files)], caps


def arm(plan):
    inv = {v: k for k, v in shim.ACTIONS.items()}
    for kind, idx, count, act, a, b, *file in plan:
        shim.fault(KIND.get(kind, 0), idx, count, inv[act], getattr(errno, a) if isinstance(a, str) else a, b, file[0] if file else None)


def gen_caps(r):
    """how the system chops up transfers: {kind: [sizes]}; -1 is an interrupted call"""
    out = {}
    for kind in ('read', 'write'):
        if r.random() < 0.7:
            out[kind] = [r.choice([-1, 0, 1, 2, 7, 100, 1000, 4096, 8191]) for _ in range(r.randrange(1, 9))]
            if all(x < 0 for x in out[kind]):
                out[kind].append(0)
            if r.random() < 0.8:        # not a thousand one-byte calls
                out[kind] = [x if x < 0 or x > 50 else 0 if x == 0 else x * 50 for x in out[kind]]
    return out


def set_caps(caps):
    for kind, vals in caps.items():
        for v in vals:
            shim.cap(KIND[kind], v)


def attempt(f):
    """what f returns and the type of the exception it ends with; a ctrl-C may come inside its system calls"""
    x = e = None
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        try:
            x = f()
        except BaseException as err:
            e = type(err)
        for _ in range(3):      # an interruption that has not yet been noticed
            pass
    except KeyboardInterrupt:
        x, e = None, KeyboardInterrupt
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    return x, e


def command(argv, tr):
    """the status and the error with which the command line ends"""
    code, err = 0, ''
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        try:
            if tr is not None:
                with tr:
                    worlds.cli(argv)
            else:
                worlds.cli(argv)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            e = None
        except BaseException as e:
            code = 130 if isinstance(e, KeyboardInterrupt) else 1
            err = '%s: %s' % (type(e).__name__, e)
            e.__traceback__ = None
        for _ in range(3):      # an interruption that has not yet been noticed
            pass
    except KeyboardInterrupt:
        code, err = 130, 'KeyboardInterrupt'
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    return code, err


def cli_child(argv, prefixes, plan=(), caps={}, event=None, exc=None, clock=(T0,), want_ops=False, before=None, mutate=None):
    """In a forked child: the command line under faults, like a process of its own up to its exit.
    {'exit': status, 'err': text, 'fired': {...}, 'at': place of the interrupt, 'ops': [...]}"""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    if before:
        before()
    shim.reset()
    for p in prefixes:
        shim.prefix(p)
    arm(plan)
    set_caps(caps)
    shim.clock_clear()
    for v in clock:
        shim.clock(int(v * 10 ** 9))
    tr = sched.Tracer(event, c.EXC[exc] if exc else None)
    shim.start()
    code, err = command(argv, tr if event is not None else None)
    gc.collect()        # what a process closes when it ends
    shim.stop()
    return {'exit': code, 'err': err, 'fired': shim.fired_counts(), 'at': tr.fired,
            'total': shim.total(),
            'ops': [{k: getattr(o, k) for k in ('kind', 'fd', 'off', 'req', 'ret', 'ino', 'data', 'len', 'err', 'name', 'name2')}
                    for o in shim.ops()] if want_ops else None}


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def add_fired(st, fired, plan):
    """fired: action -> times; attributes them to the kinds of the plan"""
    kinds = {p[3]: p[0] for p in plan}
    for a, n in fired.items():
        k = 'fault %s %s' % (kinds.get(a, ''), a) if a in kinds else 'fault ' + a
        st[k] = st.get(k, 0) + n


# ---- power loss ----
class Inode:
    def __init__(self, content=b''):
        self.durable = content
        self.pending = []


def images(ops, d, initial, r, p, count):
    """What the directory d may hold when power is lost after p operations.  initial: {name: content}.  Yields
    (description, {name: content}).  A file holds what was fsynced, plus any part of what was written since; the entries
    of the directory hold what was fsynced, plus any prefix of the changes since."""
    import fcntl  # noqa
    by_ino = {}
    cur = {os.path.join(d, n): Inode(b) for n, b in initial.items()}
    entries = dict(cur)
    dirlog = []             # pending changes of entries

    for o in ops[:p]:
        if o['ret'] < 0:
            continue
        k, n = o['kind'], o['name']
        if k == shim.OPEN:
            if o['req'] & (os.O_CREAT | os.O_TRUNC) and not o['req'] & os.O_DIRECTORY:
                real = os.path.join(os.path.realpath(os.path.dirname(n)), os.path.basename(n))
                if n not in cur and o['len'] >= 0 and real not in cur:
                    continue    # a link; not simulated here
                if o['len'] < 0:
                    i = Inode()
                    cur[n] = i
                    dirlog.append(('set', n, i))
                else:
                    i = cur[n]
                    if o['req'] & os.O_TRUNC:
                        i.pending.append(('trunc', 0))
                by_ino[o['ino']] = i
            elif n in cur:
                by_ino[o['ino']] = cur[n]
        elif k == shim.WRITE and o['ino'] in by_ino and o['data'] is not None:
            by_ino[o['ino']].pending.append(('write', o['off'], o['data'][:o['ret']]))
        elif k == shim.TRUNC and o['ino'] in by_ino:
            by_ino[o['ino']].pending.append(('trunc', o['off']))
        elif k == shim.FSYNC:
            if n == d:
                for e in dirlog:
                    _entry(entries, e)
                dirlog = []
            elif o['ino'] in by_ino:
                i = by_ino[o['ino']]
                i.durable = _apply(i.durable, i.pending)
                i.pending = []
        elif k == shim.RENAME and o['ret'] == 0 and n in cur:
            i = cur.pop(n)
            cur[o['name2']] = i
            dirlog.append(('move', n, o['name2'], i))
        elif k == shim.UNLINK and n in cur:
            cur.pop(n)
            dirlog.append(('del', n))
        elif k == shim.LINK and o['ret'] == 0 and not o['req'] and n in cur:
            cur[o['name2']] = cur[n]
            dirlog.append(('set', o['name2'], cur[n]))
    for _ in range(count):
        e = dict(entries)
        take = r.randrange(len(dirlog) + 1) if dirlog else 0
        for x in dirlog[:take]:
            _entry(e, x)
        how = r.choice(['prefix', 'subset', 'none', 'all', 'torn'])
        img = {}
        seen = {}
        for n, i in e.items():
            if id(i) not in seen:
                pend = i.pending
                if how == 'prefix':
                    pend = pend[:r.randrange(len(pend) + 1)]
                elif how == 'subset':
                    pend = [x for x in pend if r.random() < 0.6]
                elif how == 'none':
                    pend = []
                elif how == 'torn' and pend:
                    pend = pend[:r.randrange(len(pend)) + 1]
                    if pend[-1][0] == 'write':
                        b = pend[-1][2]
                        pend = pend[:-1] + [('write', pend[-1][1], b[:r.randrange(len(b) + 1)])]
                seen[id(i)] = _apply(i.durable, pend)
            img[n] = seen[id(i)]
        yield '%d of %d pending directory changes, unsynced data: %s' % (take, len(dirlog), how), img


def _entry(e, x):
    if x[0] == 'set':
        e[x[1]] = x[2]
    elif x[0] == 'del':
        e.pop(x[1], None)
    else:
        e.pop(x[1], None)
        e[x[2]] = x[3]


def _apply(b, pending):
    b = bytearray(b)
    for x in pending:
        if x[0] == 'trunc':
            if len(b) > x[1]:
                del b[x[1]:]
            else:
                b += b'\0' * (x[1] - len(b))
        else:
            if len(b) < x[1]:
                b += b'\0' * (x[1] - len(b))
            b[x[1]:x[1] + len(x[2])] = x[2]
    return bytes(b)


# ---- sources ----
BAD = ['short row', 'empty head', 'bad cost', 'big cost', 'bad split', 'no such word', 'bad bytes', 'bad matrix', 'no second file',
       'bad synonym', 'big id', 'bad surrogate', 'empty matrix',
       'directory', 'no matrix', 'many units', 'long word', 'bad U', 'half matrix']


def split_rows(text, k):
    """the rows of a source in k files (at least one row each)"""
    f = csv.reader(io.StringIO(text, newline=''))
    lines = io.StringIO(text, newline='').readlines()
    ends = [f.line_num for _ in f]
    if not ends:
        return [text]
    ends[-1] = len(lines)
    k = max(1, min(k, len(ends)))
    cuts = [0] + [ends[len(ends) * (i + 1) // k - 1] for i in range(k)]
    return [''.join(lines[a:z]) for a, z in zip(cuts, cuts[1:])]


def write_sources(d, spec, what, bad, parts, at):
    """writes the sources into d; returns (lexicon files, matrix file); what: lex.csv or a user file"""
    rows = spec.files[what].splitlines(True)
    matrix = spec.files['matrix.def']
    good = rows[0].rstrip('\n').split(',')
    k = at % (len(rows) + 1)
    raw = None

    def mut(i, v):
        x = list(good)
        x[i] = v
        return ','.join(x) + '\n'
    if bad == 'short row':
        rows.insert(k, 'a,b\n')
    elif bad == 'empty head':
        rows.insert(k, mut(0, ''))
    elif bad == 'bad cost':
        rows.insert(k, mut(3, 'x'))
    elif bad == 'big cost':
        rows.insert(k, mut(3, '99999'))
    elif bad == 'bad split':
        x = list(good)
        x[14], x[15] = 'C', '9999999'
        rows.insert(k, ','.join(x) + '\n')
    elif bad == 'no such word':
        x = list(good)
        x[14], x[15] = 'C', '"何処,名詞,x,x,x,x,x,ナイ"'
        rows.insert(k, ','.join(x) + '\n')
    elif bad == 'bad bytes':
        raw = k
    elif bad == 'bad matrix':
        m = matrix.splitlines(True)
        m.insert(1 + at % len(m), '0 zero 1\n')
        matrix = ''.join(m)
    elif bad == 'empty matrix':
        matrix = '\n'
    elif bad == 'bad synonym':
        rows.insert(k, mut(18, '1/x') if len(good) > 18 else mut(3, 'x'))
    elif bad == 'big id':
        rows.insert(k, mut(1, '70000'))
    elif bad == 'bad surrogate':
        rows.insert(k, mut(4, '\\ud800'))
    elif bad in ('many units', 'bad U'):
        x = list(good)
        x[14], x[15] = 'C', '/'.join(['0'] * 200) if bad == 'many units' else 'U99999/0'
        rows.insert(k, ','.join(x) + '\n')
    elif bad == 'long word':
        rows.insert(k, mut(0, 'あ' * 40000))
    elif bad == 'half matrix':
        matrix = matrix.split('\n')[0].split()[0] + '\n'
    files = []
    n = max(1, min(parts, len(rows)))
    for i in range(n):
        p = os.path.join(d, 'src%d.csv' % i)
        chunk = rows[len(rows) * i // n:len(rows) * (i + 1) // n]
        data = ''.join(chunk).encode('utf-8')
        if raw is not None and i == n - 1:
            data += b'\xff\xfe\x80,1,1,1\n'
        with open(p, 'wb') as f:
            f.write(data)
        files.append(p)
    mp = os.path.join(d, 'matrix.def')
    with open(mp, 'w', encoding='utf-8') as f:
        f.write(matrix)
    if bad == 'no matrix':
        mp = os.path.join(d, 'no.def')
    if bad == 'directory':
        files.append(d)
    if bad == 'no second file':
        files.append(os.path.join(d, 'nothing.csv'))
    return files, mp


def argv_for(kind, w, files, matrix, out, desc, system=None):
    if kind == 'build':
        return ['build', '-o', out, '-d', desc, '-m', matrix] + files
    return ['ubuild', '-o', out, '-d', desc, '-s', system or os.path.join(w.dir, 'system.dic')] + files
