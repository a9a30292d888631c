"""A process of `sudachipy tokenize`: standard streams on descriptors 0 and 1, input and output under the system-call
seam, the end of an interpreter as CPython does it; and what the command has to write."""
import functools
import gc
import io
import logging
import os
import sys

from simkit import dump, sched, shim, worlds
from . import building as b, common as c, opening as o

ENC = [['utf-8', 'strict']] * 9 + [['utf-8', 'surrogateescape']] * 9 + [
       ['ascii', 'surrogateescape'], ['latin-1', 'strict'], ['euc_jp', 'strict'], ['utf-16-le', 'strict']]


def process(argv, stdin, stdout, enc, pk=None, prefixes=(), plan=(), caps={}, event=None, exc=None, want_ops=False, chdir=None,
            clock=(b.T0,), tty=False, nonblock=False, closed=()):
    """in a forked child"""
    if pk:
        sys.path.insert(0, pk)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 2)
    fi = os.open(stdin, os.O_RDONLY) if stdin else null
    os.dup2(fi, 0)
    if nonblock:            # as whoever has the other end of a pipe or terminal, or had it before, may have set it
        os.set_blocking(0, False)
    fo = os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644) if stdout else null
    os.dup2(fo, 1)
    if chdir:
        os.chdir(chdir)
    err_in = enc[1]
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, 'r', closefd=False)), enc[0], err_in, newline='\n')
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), enc[0], enc[1], newline='\n',
                                  line_buffering=tty)
    for i, name in enumerate(('stdin', 'stdout')):
        if name in closed:              # before the process began
            getattr(sys, name).detach().detach()
            setattr(sys, name, None)
            os.close(i)
    sys.__stdin__, sys.__stdout__ = sys.stdin, sys.stdout
    shim.reset()
    for p in prefixes:
        shim.prefix(p)
    if 'stdin' not in closed:
        shim.track_fd(0, 'stdin')
    if 'stdout' not in closed:
        shim.track_fd(1, 'stdout')
    b.arm(plan)
    b.set_caps(caps)
    shim.clock_clear()
    for v in clock:
        shim.clock(int(v * 10 ** 9))
    tr = sched.Tracer(event, c.EXC[exc] if exc else None)
    shim.start()
    code, err = b.command(argv, tr if event is not None else None)
    # the end of the interpreter: atexit, then the standard streams
    logging.shutdown()
    if sys.stdout is not None and not sys.stdout.closed:
        try:
            sys.stdout.flush()
        except Exception as e:
            code, err = 120, err + ' | at exit: %r' % e
    gc.collect()
    try:
        sys.stdout.detach().detach()
    except Exception:
        pass
    n = shim.total()
    shim.stop()
    return {'exit': code, 'err': err[:600], 'fired': shim.fired_counts(), 'at': tr.fired, 'total': n,
            'ops': [(q.kind, q.fd, q.req, q.ret, q.name, q.data[:max(q.ret, 0)] if q.data is not None and q.ret > 0 else None) for q in shim.ops()] if want_ops else None}


def gen_kind(r):
    """hash seed and environment of the process, or None for the usual ones"""
    return list(r.choice([(1, 'C'), (2, 'O')])) if r.random() < 0.12 else None


def start(ctx, case):
    if case.get('kind'):
        return lambda f, *a, **kw: ctx.elsewhere(*case['kind'], functools.partial(f, **kw), *a)
    return ctx.fork


def gen_input(r, s, allow=('bad', 'cr')):
    """{'lines': [...], 'end': whether the last line ends, 'bad': position of an undecodable byte or None}"""
    n = r.choice([0, 1, 1, 2, 3, 5, 10, 20])
    if r.random() < 0.12:
        n = r.choice([60, 150, 400])
    few = [c.text(r, s) for _ in range(12)]
    lines = [r.choice(few) if n > 30 else c.text(r, s) for _ in range(n)]
    lines = [''.join(ch for ch in x if ch not in '\r\n') for x in lines]
    if 'cr' in allow and r.random() < 0.15 and lines:
        k = r.randrange(len(lines))
        lines[k] += r.choice(['\r', '\r東', '\x0b', '\x85x', '\u2028東', '\x1c', '\ufeff'])
    if r.random() < 0.03:
        lines.insert(0, '\ufeff')
    return {'lines': lines, 'end': r.random() < 0.8,
            'bad': [r.randrange(10000), r.choice(['ff', 'e3', '80', 'c0af', 'eda080'])] if 'bad' in allow and r.random() < 0.12 else None}


def analysable(ctx, op, inp, mode):
    """without the lines that have no analysis"""
    want = o.oracle(ctx, op, [(t, mode) for t in inp['lines']])
    return dict(inp, lines=[t for t in inp['lines'] if want[(t, mode)][0] in ('ok', 'noopen')])


def encode(inp, enc):
    """the bytes of an input"""
    t = '\n'.join(inp['lines']) + ('\n' if inp['end'] and inp['lines'] else '')
    data = t.encode(enc[0], 'replace')
    if inp['bad']:
        i = inp['bad'][0] % (len(data) + 1)
        data = data[:i] + bytes.fromhex(inp['bad'][1]) + data[i:]
    return data


def lines_of(data, enc, newline):
    """(lines before the first undecodable byte, whether all could be decoded)"""
    try:
        text = data.decode(*enc)
        ok = True
    except UnicodeDecodeError as e:
        text = data[:e.start].decode(enc[0])
        ok = False
    ls = list(io.StringIO(text, newline=newline))
    if not ok and ls and not ls[-1].endswith('\n'):
        ls.pop()            # the line with the bad byte
    return [x.rstrip('\n') for x in ls], ok


def expected(ctx, op, inputs, mode, full, enc_out, stop_ok=True):
    """inputs: [(lines, decodable)].  (bytes of the result as far as it exists, whether it is complete)"""
    texts = []
    ok = True
    for ls, good in inputs:
        texts += ls
        if not good:
            ok = False
            break
    want = o.oracle(ctx, op, [('', mode)] + [(t, mode) for t in texts])
    out = []
    for t in texts:
        v = want[(t, mode)]
        if v[0] != 'ok':
            ok = False
            break
        out.append(render(v, full))
    if want[('', mode)][0] == 'noopen':
        ok = False
    text = ''.join(out)
    try:
        return text.encode(*enc_out), ok
    except UnicodeEncodeError as e:
        return text[:e.start].encode(*enc_out), False


def render(v, full):
    out = []
    for m in v[1][0]:
        f = [m[2], ','.join(m[3]), m[6]]
        if full:
            f += [m[5], m[7], str(m[10]), '[' + ','.join(map(str, m[11])) + ']']
            if m[8]:
                f.append('(OOV)')
        out.append('\t'.join(f) + '\n')
    return ''.join(out) + 'EOS\n'
