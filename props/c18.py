"""C18: use does not accumulate."""
import array
import gc
import io
import os
import random
import sys
import threading

from simkit import dump, sched, shim
from . import building as b, common as c, opening as o
from .c01 import Armed, finish, install_plugins, logger

WARM, ROUNDS = 3, 5
FAULTS = {'x': 'exception inside a call', 'xopen': 'exception inside an opening', 'build': 'refused or interrupted build',
          'fopen': 'failing system call in an opening', 'pf': 'failing plugin', 'debug': 'failing debug sink', 'bad': 'bad argument'}


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 25
    if r.random() < 0.08:
        return gen_command(r, nw)
    opens = [o.gen_open(r, nw, invalid=0.15) for _ in range(r.choice([1, 2]))]
    ops = []
    kinds = r.sample(['t', 'x', 'split', 'debug', 'pf', 'new', 'thread', 'open', 'xopen', 'fopen', 'close', 'build', 'fresh', 'bad', 'grow'], r.choice([1, 2, 3, 6]))
    for _ in range(r.choice([1, 2, 4, 8])):
        k = r.choice(kinds)
        i = r.randrange(len(opens))
        t = c.text(r, c.spec(*opens[i][:2]))
        if k in ('t', 'split', 'new', 'thread'):
            ops.append([k, i, t, r.choice('ABC')])
        elif k == 'x':
            ops.append([k, i, t, r.choice('ABC'), c.event(r, t), r.choice(c.RAISED)])
        elif k == 'debug':
            ops.append([k, i, t, r.choice('ABC'), r.choice([None, r.randrange(12)])])
        elif k == 'pf':
            ops.append([k, i, t, r.choice('ABC'), r.choice(['input', 'oov', 'path']), r.randrange(0, len(t) + 2), r.choice(c.RAISED)])
        elif k == 'bad':
            ops.append([k, i])
        elif k in ('open', 'close'):
            ops.append([k, i, t, r.choice('ABC'), r.choice([0, 1, 2])])
        elif k == 'xopen':
            ops.append([k, i, int(2 ** r.uniform(0, 13)), r.choice(c.RAISED)])
        elif k == 'fopen':
            ops.append([k, i, b.gen_fault(r, crash=False, kinds=['open', 'read', 'mmap', 'close', 'any'], span=r.choice([3, 10, 40]), signal=True)])
        elif k == 'grow':
            ops.append([k, i, r.choice([20, 60, 150]), r.choice([1, 3, 7]), r.choice(['up', 'up', 'down', 'random']), r.getrandbits(32)])
        elif k == 'build':
            ops.append([k, i, r.randrange(-1, 2), r.choice(b.BAD) if r.random() < 0.3 else None,
                        int(2 ** r.uniform(0, 14)) if r.random() < 0.4 else None, r.choice(c.RAISED)])
        else:
            ops.append([k, i, r.getrandbits(32), r.choice([5, 20, 40]), r.choice('ABC')])
    if sum(op[0] == 'grow' for op in ops) > 2:
        ops = [op for i, op in enumerate(ops) if op[0] != 'grow' or i % 3 == 0] or ops[:1]
    if r.random() < 0.3 and tier != 'quick':
        ops = ops * 3
    return {'opens': opens, 'ops': ops, 'plugins': r.random() < 0.3}


def gen_command(r, nw):
    """the tokenize command, which gets the same lines again and again"""
    p, s = c.pick_world(r, o.POOL, nw)
    ok = [t for t in c.spec(p, s).texts + c.spec(p, s).heads if 0 < len(t) <= 60 and not any(x in '\n\r\x85\u2028\u2029' or '\ud800' <= x < '\ue000' for x in t)]
    lines, size = [], 0
    for _ in range(r.choice([1, 5, 20, 60])):
        t = r.choice(ok)
        size += len(t.encode()) + 1
        if size < 8000:
            lines.append(t)
    return {'command': r.choice([[], [], ['-a'], ['-m', 'A'], ['-d'], ['-m', 'B', '-a']]), 'world': [p, s],
            'lines': lines, 'blank': r.random() < 0.3, 'file': r.random() < 0.3}


class Feed(io.RawIOBase):
    """standard input: the lines of a round with each read, and a look at the memory before it"""

    def __init__(self, data):
        self.data, self.n, self.end = data, 0, WARM + ROUNDS
        self.meter = Meter(40)
        self.first = None

    def readable(self):
        return True

    def readinto(self, buf):
        if self.n >= WARM:
            self.meter.look()
        if self.n == self.end:
            rows = self.meter.rows()
            if self.first is None and grown_in(rows):       # is it only that something fills up?
                self.first = len(rows)
                self.end += 16
            else:
                return 0
        self.n += 1
        buf[:len(self.data)] = self.data
        return len(self.data)


def execute_command(case, config, tmp):
    from simkit import worlds
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    feed = Feed((''.join(t + '\n' for t in case['lines']) + '\n' * case['blank']).encode())
    sys.stdin = sys.__stdin__ = io.TextIOWrapper(io.BufferedReader(feed, 8192), 'utf-8')
    sys.stdout = sys.__stdout__ = open(os.devnull, 'w', encoding='utf-8')
    argv = ['tokenize', '-r', config] + case['command']
    if case['file']:
        argv += ['-o', os.path.join(tmp, 'out')]
    err = None
    try:
        worlds.cli(argv)
    except BaseException as e:
        err = type(e).__name__
        if isinstance(e, SystemExit) and not e.code:
            err = None
    rows = feed.meter.rows()
    st = {'commands': 1, 'commands that fail': int(err is not None)}
    if err is None and len(rows) > ROUNDS:
        g = grown_in(rows[-8:]) if feed.first else None
        if g:
            return {'viol': {'class': 'use accumulates: ' + g, 'msg': 'the command %s given the same %d lines again and again; after each of the last rounds: %s' % (
                ' '.join(argv[:1] + case['command']), len(case['lines']),
                ', '.join('%+d objects, %+d blocks' % (y[0] - x[0], y[1] - x[1]) for x, y in zip(rows[-8:], rows[-7:])))}, 'stats': st}
    return {'stats': st, 'sig': dump.digest(case), 'nontrivial': err is None and len(rows) > ROUNDS, 'log': dump.digest([err, feed.n]), 'evals': max(1, len(rows))}


def grown_in(rows):
    """what has grown in every round"""
    for q, name in ((0, 'objects'), (1, 'allocated blocks')):
        if all(y[q] > x[q] for x, y in zip(rows, rows[1:])):
            return name
    return None


class Meter:
    """keeps what it measures in memory allocated before"""

    def __init__(self, n):
        self.a = array.array('q', bytes(16 * n))
        self.n = 0

    def look(self):
        sys._clear_type_cache()         # CPython remembers names that were looked up, at most some thousands
        gc.collect()
        self.a[2 * self.n] = len(gc.get_objects())
        self.a[2 * self.n + 1] = sys.getallocatedblocks()
        self.n += 1

    def rows(self):
        return [(self.a[2 * i], self.a[2 * i + 1]) for i in range(self.n)]


def fresh_text(r, heads):
    """texts that have most likely not occurred before, of characters that have"""
    return ''.join(r.choice(heads) if r.random() < 0.5 else r.choice('東京都府県山川あいうアイウabc1234。') for _ in range(r.randrange(3, 9)))


def build(files, what, out, matrix, system, event, exc):
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    with sched.Tracer(event, c.EXC[exc]):
        if what < 0:
            with open(matrix, encoding='utf-8') as m:
                DictionaryBuilder().build(files, m, out)
        else:
            d = BinaryDictionary.from_system_dictionary(system)
            UserDictionaryBuilder(d.grammar, d.lexicon).build(files, None, out)


def execute(case, kws, specs, tmp, systems, pk, roots):
    from sudachipy.dictionary import Dictionary
    sys.path.insert(0, pk)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    st, log = {}, []
    dics, toks, arms = [], [], []
    for kw in kws:
        d, err = o.do_open(kw)
        arm = Armed()
        if d is not None and case['plugins']:
            install_plugins(d, arm)
        dics.append(d)
        arms.append(arm)
        toks.append(d.create() if d is not None else None)

    rand = {}
    fresh = {}

    def one(k, op):
        i = op[1]
        tok, d = toks[i], dics[i]
        if k in ('t', 'x', 'split', 'debug', 'pf', 'new', 'thread', 'bad', 'fresh', 'grow') and tok is None:
            return
        m = dump.mode_of(op[3]) if k in ('t', 'x', 'split', 'debug', 'pf', 'new', 'thread', 'open', 'close') else None
        if k == 't':
            dump.mlist(tok.tokenize(op[2], m))
        elif k == 'x':
            with sched.Tracer(op[4], c.EXC[op[5]]):
                dump.mlist(tok.tokenize(op[2], m))
        elif k == 'split':
            for x in tok.tokenize(op[2], m):
                for q in 'ABC':
                    [dump.morpheme(y) for y in x.split(dump.mode_of(q))]
        elif k == 'debug':
            tok.tokenize(op[2], m, logger(op[4] or 0, None if op[4] is None else ValueError)[0])
        elif k == 'pf':
            if case['plugins']:
                a = arms[i]
                a.kind, a.left, a.exc = op[4], op[5], c.EXC[op[6]]
                try:
                    tok.tokenize(op[2], m)
                finally:
                    a.left = None
        elif k == 'bad':
            tok.tokenize(12, m)
        elif k == 'thread':
            def use():
                x = d.create(m).tokenize(op[2])
                dump.mlist(x)
                dump.mlist(tok.tokenize(op[2], m))
            th = threading.Thread(target=use)
            th.start()
            th.join()
        elif k == 'new':
            dump.mlist(d.create(m).tokenize(op[2]))
        elif k == 'fresh':
            r = rand.setdefault(id(op), random.Random(op[2]))
            for _ in range(op[3] * scale[0]):
                dump.mlist(tok.tokenize(fresh_text(r, specs[i].heads), dump.mode_of(op[4])))
                fresh['n'] = fresh.get('n', 0) + 1
        elif k in ('open', 'close'):
            x = Dictionary(**kws[i])
            if op[4]:
                y = x.create()
                if op[4] == 2:
                    dump.mlist(y.tokenize(op[2], m))
            if k == 'close':
                x.close()
        elif k == 'xopen':
            with sched.Tracer(op[2], c.EXC[op[3]]):
                Dictionary(**kws[i])
        elif k == 'fopen':
            shim.reset()
            for p in roots:
                shim.prefix(p)
            b.arm([op[2]])
            shim.start()
            x, e = b.attempt(lambda: Dictionary(**kws[i]))
            shim.stop()
            return e.__name__ if e else None
        elif k == 'grow':
            texts = grown[id(op)]
            for x in texts:             # for everything that is cached
                tok.tokenize(x)
            held = [0, 0]
            for q, xs in enumerate((texts[-1:], texts)):
                y = None
                sys._clear_type_cache()
                gc.collect()
                before = sys.getallocatedblocks()
                y = d.create()
                for x in xs:
                    y.tokenize(x)
                sys._clear_type_cache()
                gc.collect()
                held[q] = sys.getallocatedblocks() - before
            if held[1] > 3 * held[0] + 300:
                over.append((len(texts), held))
        elif k == 'build':
            files, matrix = sources[id(op)]
            out = io.BytesIO()
            build(files, op[2], out, matrix, systems[i], op[4], op[5])

    scale = [1]
    sources = {}
    grown = {}
    over = []
    for op in case['ops']:
        if op[0] == 'grow':
            t = ''
            r = random.Random(op[5])
            while len(t) < op[2]:
                t += fresh_text(r, specs[op[1]].heads)
            xs = [t[:n] for n in range(1, op[2], op[3])]
            if op[4] == 'down':
                xs.reverse()
            elif op[4] == 'random':
                r.shuffle(xs)
            grown[id(op)] = xs + [t]
    for j, op in enumerate(case['ops']):
        if op[0] == 'build':
            s = specs[op[1]]
            if op[2] >= len(s.users):
                op[2] = len(s.users) - 1
            dd = os.path.join(tmp, 'src%d' % j)
            os.makedirs(dd)
            sources[id(op)] = b.write_sources(dd, s, 'lex.csv' if op[2] < 0 else s.users[op[2]], op[3], 1, 7)

    def round_(first=False):
        for op in case['ops']:
            try:
                e = one(op[0], op) or 'ok'
            except BaseException as x:
                e = type(x).__name__
                x = None
            if first:
                log.append([op[0], e])
                st['op %s: %s' % (op[0], e)] = st.get('op %s: %s' % (op[0], e), 0) + 1
                if op[0] in FAULTS and e != 'ok':
                    q = 'fault ' + FAULTS[op[0]] + ('' if op[0] in ('fopen', 'debug', 'bad') else ': ' + e)
                    st[q] = st.get(q, 0) + 1

    def series(n):
        m = Meter(n + 1)
        m.look()
        for _ in range(n):
            round_()
            m.look()
        return m.rows()

    for i in range(WARM):
        round_(i == 0)
        if over:
            return {'viol': {'class': 'a tokenizer accumulates', 'msg': 'a new tokenizer keeps %d memory blocks after one text, and %d after %d texts of which that is the longest' % (
                over[0][1][0], over[0][1][1], over[0][0])}, 'stats': st}
    rows = series(ROUNDS)
    n = ROUNDS
    g = grown_in(rows)
    if g:                               # is it only that something fills up?
        st['looked longer'] = 1
        scale[0] = 8
        if 'n' in fresh:
            per = fresh['n'] // (WARM + ROUNDS)
            scale[0] = max(1, min(100, 2000 // max(1, per)))
        for _ in range(8):
            round_()
        rows = series(8)
        n += 16
        g = grown_in(rows)
    if g:
        return {'viol': {'class': 'use accumulates: ' + g, 'msg': 'rounds of %s: after each of the last ones, with everything dropped and collected: %s' % (
            [x[0] for x in case['ops']], ', '.join('%+d objects, %+d blocks' % (y[0] - x[0], y[1] - x[1]) for x, y in zip(rows, rows[1:])))}, 'stats': st}
    return {'stats': st, 'sig': dump.digest(case), 'nontrivial': True, 'log': dump.digest([log, sorted(st.items())]), 'evals': n}


def run(case, ctx):
    if 'command' in case:
        tmp = ctx.tmp('acc')
        try:
            return finish(ctx.fork(execute_command, case, ctx.world(*case['world']).config, tmp), case)
        finally:
            ctx.rmtree(tmp)
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    ws = [ctx.world(*x[:2]) for x in case['opens']]
    pk = ctx.packages()
    roots = sorted({os.path.realpath(w.dir) + '/' for w in ws} | {os.path.realpath(pk) + '/'})
    tmp = ctx.tmp('acc')
    try:
        return finish(ctx.fork(execute, case, kws, [w.spec for w in ws], tmp, [os.path.join(w.dir, 'system.dic') for w in ws], pk, roots), case)
    finally:
        ctx.rmtree(tmp)


def shrink(case):
    if 'command' in case:
        for x in c.drop_chunks(case['lines']):
            if x:
                yield dict(case, lines=x)
        for k, v in (('command', []), ('file', False), ('blank', False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        return
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    if case['plugins']:
        yield dict(case, plugins=False)
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain'], ['tiny', 0, 0, 'plain']):
            if x != y and not x[3].startswith('type'):
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    for i, op in enumerate(case['ops']):
        if op[0] not in ('bad', 'xopen', 'fopen', 'build', 'fresh', 'grow'):
            for t in c.shorter_texts(op[2]):
                yield dict(case, ops=case['ops'][:i] + [op[:2] + [t] + op[3:]] + case['ops'][i + 1:])
