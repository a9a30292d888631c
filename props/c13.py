"""C13: closing or dropping a dictionary releases what it holds."""
import gc
import os
import sys

from simkit import core, dump, sched, shim
from . import building as b, common as c, opening as o
from .c01 import _first_diff, finish


def gen(r, tier, idx):
    if r.random() < 0.12:
        return gen_threads(r, tier)
    nw = 4 if tier == 'quick' else 25
    opens = [o.gen_open(r, nw, invalid=0.1) for _ in range(r.choice([1, 2, 3]))]
    ops, slots = [], []
    for _ in range(r.choice([4, 8, 15, 30])):
        x = r.random()
        if x < 0.2 or not slots:
            s = r.randrange(4)
            ops.append(['open', s, r.randrange(len(opens))])
            slots.append(s)
        elif x < 0.33:
            i = r.randrange(len(opens))
            if r.random() < 0.5:
                ops.append(['xopen', i, int(2 ** r.uniform(0, 13)), r.choice(c.ANY)])
            else:
                f = b.gen_fault(r, crash=False, kinds=['open', 'read', 'mmap', 'close', 'any'], span=r.choice([3, 10, 40]), signal=True)
                if r.random() < 0.4:
                    f, _ = b.aim(r, o.targets(c.spec(*opens[i][:2])), kinds=('open', 'read', 'mmap', 'close'), signal=True)
                ops.append(['fopen', i, f])
        elif x < 0.65:
            s = r.choice(slots)
            t = c.text(r, c.spec(*opens[r.randrange(len(opens))][:2]))
            y = r.random()
            ops.append(['use', s, t, r.choice('ABC'), r.random() < 0.5] if y < 0.8 else
                       ['xuse', s, t, r.choice('ABC'), int(2 ** r.uniform(0, 11)), r.choice(c.ANY)] if y < 0.9 else
                       ['tok', s])
        elif x < 0.8:
            s = r.choice(slots)
            ops.append(['xclose', s, r.randrange(1, 30), r.choice(c.ANY)] if r.random() < 0.15 else ['close', s])
            if r.random() < 0.3:
                ops.append(['close', s])
        elif x < 0.93:
            ops.append([r.choice(['drop', 'drop', 'droptok', 'dropres', 'dropdic', 'dropall']), r.choice(slots)])
        else:
            ops.append(['check'])
    return {'opens': opens, 'ops': ops}


def gen_threads(r, tier):
    """threads that use dictionaries while others of them close, drop and reopen these"""
    nw = 4 if tier == 'quick' else 25
    opens = [o.gen_open(r, nw, invalid=0) for _ in range(r.choice([1, 1, 2]))]
    th = []
    for _ in range(r.choice([2, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            i = r.randrange(len(opens))
            k = r.choice(['use', 'use', 'held', 'late', 'close', 'close', 'drop', 'open'])
            ops.append([k, i])
            if k in ('use', 'held', 'late'):
                ops[-1] += [r.choice([t for t in c.spec(*opens[i][:2]).texts if len(t) <= 10]), r.choice('ABC')]
        th.append(ops)
    if not any(op[0] in ('close', 'drop') for ops in th for op in ops):
        r.choice(th).append(['close', 0])
    return {'opens': opens, 'threads': th, 'policy': sched.random_policy(r, 4000 * len(th)),
            'fault': [r.randrange(len(th)), int(2 ** r.uniform(0, 12)), r.choice(c.RAISED)] if r.random() < 0.15 else None}


def execute_threads(case, kws, want, pk, roots):
    sys.path.insert(0, pk)
    from .c05 import preload
    preload()
    roots = tuple(roots)
    gc.collect()
    base = fds()
    n = len(case['threads'])
    s = sched.Sched(sched.policy(case['policy'], n))
    dics = {}
    for i, kw in enumerate(kws):
        d, err = o.do_open(kw)
        if d is not None:
            dics[i] = d
    held = {i: d.create() for i, d in dics.items()}
    late = [[] for _ in range(n)]
    d = None
    began = set()           # id of dictionaries whose closing began; the dictionaries are kept in all_
    all_ = {i: [d] for i, d in dics.items()}
    d = None
    tok_of = {i: dics[i] for i in held}
    bad_, st, out = [], {}, [[] for _ in range(n)]

    def body(k):
        def go():
            try:
                for op in case['threads'][k]:
                    step(k, op)
            except BaseException as e:
                if 'injected' not in str(e):
                    raise
        return go

    def step(k, op):
        i = op[1]
        d = dics.get(i)
        if op[0] == 'open':
            x, err = o.do_open(kws[i])
            if x is not None:
                dics[i] = x
                all_.setdefault(i, []).append(x)
            return
        if op[0] == 'drop':
            dics.pop(i, None)
            return
        if op[0] == 'close':
            if d is None:
                return
            began.add(id(d))
            try:
                d.close()
            except Exception as e:
                if 'injected' in str(e):
                    raise
                bad_.append(['closing fails', 'thread %d %r: %s: %s' % (k, op, type(e).__name__, e)])
            return
        ref = want[i][(op[2], op[3])]
        if op[0] == 'held':
            t, d = held.get(i), tok_of.get(i)
            if t is None or not own(i, k):
                return
        elif d is None:
            return
        else:
            try:
                t = d.create()
            except Exception as e:
                if 'injected' in str(e):
                    raise
                if id(d) not in began:
                    bad_.append(['the answer differs', 'thread %d %r: create: %s: %s' % (k, op, type(e).__name__, e)])
                return
        if op[0] == 'late':
            try:
                late[k].append([t.tokenize(op[2], dump.mode_of(op[3])), i, op])
            except Exception as e:
                got = dump.exc(e)
                if 'injected' in str(e):
                    raise
            else:
                return
        else:
            got = dump.tok(t, op[2], op[3])
        out[k].append(dump.digest(got))
        if got != ref if got[0] == 'ok' else (ref[0] == 'ok' and id(d) not in began):
            if s.fired and case['fault'][0] == k:
                return
            bad_.append(['the answer differs', 'thread %d %r, %s\nalone: %.800s\nhere: %.800s' % (
                k, op, 'closing' if id(d) in began else 'open', _first_diff(ref, got), _first_diff(got, ref))])
        elif got[0] != 'ok' and ref[0] == 'ok':
            st['uses of a closed dictionary that raise'] = st.get('uses of a closed dictionary that raise', 0) + 1

    def own(i, k):
        """a tokenizer is used by one thread"""
        return min(j for j, ops in enumerate(case['threads']) if ['held', i] in [x[:2] for x in ops]) == k
    f = case['fault']
    for k in range(n):
        s.spawn(body(k), (f[1], c.EXC[f[2]]) if f and f[0] == k else None)
    res = s.run()
    st.update({'switches': s.switches, 'scheduler steps': s.step})
    if s.fired:
        st['fault %s in a thread' % f[2]] = 1
    rep = dict(case, policy={'kind': 'replay', 'decisions': s.decisions})

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg + '\n%d context switches in %d steps' % (s.switches, s.step)}, 'case': rep, 'stats': st}
    if s.failure:
        return bad('a thread does not finish', s.failure)
    for k in range(n):
        if res[k][0] != 'ok':
            return bad('a thread fails', 'thread %d: %s' % (k, res[k][2]))
    for xs in late:
        for ml, i, op in xs:
            try:
                got = ['ok', dump.mlist(ml)]
            except Exception as e:
                got = dump.exc(e)
            ref = want[i][(op[2], op[3])]
            if got[0] == 'ok' and got != ref:
                bad_.append(['the answer differs', '%r read in the end\nalone: %.800s\nhere: %.800s' % (op, _first_diff(ref, got), _first_diff(got, ref))])
    if bad_:
        return bad(*bad_[0])
    xs = ml = None
    sig, steps = s.signature(), s.step
    held.clear()
    late.clear()
    tok_of.clear()
    closed = any(op[0] == 'close' for ops in case['threads'] for op in ops)
    d = t = None
    every = not s.fired and all(id(x) in began for q in all_.values() for x in q)
    res = s = None
    if every:                   # what is closed holds nothing, even while the dictionary object is there
        gc.collect()
        m = maps(roots)
        if m:
            return {'viol': {'class': 'a mapping is kept', 'msg': 'all threads have ended, all dictionaries are closed: %s' % sorted(os.path.basename(x) for x in m)},
                    'case': rep, 'stats': st}
    dics.clear()
    all_.clear()
    gc.collect()
    m = maps(roots)
    if m:
        return {'viol': {'class': 'a mapping is kept', 'msg': 'after all threads have ended: %s' % sorted(os.path.basename(x) for x in m)}, 'case': rep, 'stats': st}
    now = fds()
    extra = [t for q, t in now.items() if q not in base]
    if extra:
        return {'viol': {'class': 'a descriptor is kept', 'msg': 'after all threads have ended: %s' % extra}, 'case': rep, 'stats': st}
    return {'stats': st, 'sig': sig, 'nontrivial': closed, 'log': dump.digest([sig, steps, out]), 'evals': 1 + sum(map(len, out))}


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out


def maps(roots):
    """mapped files below the roots -> number of mappings"""
    out = {}
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.rstrip('\n').split(None, 5)
            if len(p) > 5 and p[5].startswith(roots):
                out[p[5]] = out.get(p[5], 0) + 1
    return out


class Slot:
    def __init__(self, d, oi):
        self.d, self.oi, self.toks, self.res, self.closed = d, oi, [], [], False
        self.half = False               # a closing was interrupted

    def create(self):
        try:
            self.toks.append(self.d.create())
        except Exception:
            if not self.half:
                raise

    def holds(self):
        return bool(self.d is not None and not self.closed or self.toks or self.res)


def execute(case, kws, files, pk, roots):
    sys.path.insert(0, pk)
    roots = tuple(roots)
    st, log = {}, []
    n = 0

    def count(k):
        st[k] = st.get(k, 0) + 1

    gc.collect()
    base = fds()
    slots = {}

    def look(where, final=False):
        gc.collect()
        used = {}
        ntok = 0
        for s in slots.values():
            if s.holds():
                for f in files[s.oi]:
                    used[f] = used.get(f, 0) + 1
            ntok += len(s.toks)
        m = maps(roots)
        for f, k in m.items():
            if f not in used:
                return {'viol': {'class': 'a mapping is kept', 'msg': '%s: %d mappings of %s, which nothing uses' % (where, k, os.path.basename(f))}}
        now = fds()
        extra = [t for f, t in now.items() if f not in base]
        mine = [t for t in extra if t.startswith(roots)]
        for t in set(mine):
            if mine.count(t) > used.get(t, 0):
                return {'viol': {'class': 'a descriptor is kept', 'msg': '%s: %d descriptors of %s, used by %d dictionaries' % (
                    where, mine.count(t), os.path.basename(t), used.get(t, 0))}}
        other = [t for t in extra if not t.startswith(roots)]
        if final and (extra or set(base) - set(now)):
            return {'viol': {'class': 'a descriptor is kept', 'msg': '%s: %s' % (where, extra)}}
        if len(other) > 2 * ntok + 2:
            return {'viol': {'class': 'a descriptor is kept', 'msg': '%s: %d tokenizers are held, %s' % (where, ntok, other)}}
        return None

    for i, op in enumerate(case['ops']):
        k, s, x, d = op[0], None, None, None
        where = 'after operation %d %r' % (i, op)
        if k == 'open':
            slots.pop(op[1], None)
            d, err = o.do_open(kws[op[2]])
            if err is None:
                slots[op[1]] = Slot(d, op[2])
                d = None
            else:
                count('fault opening that must fail')
        elif k in ('xopen', 'fopen'):
            from sudachipy.dictionary import Dictionary
            failed = False
            try:
                if k == 'xopen':
                    with sched.Tracer(op[2], c.EXC[op[3]]) as tr:
                        d = Dictionary(**kws[op[1]])
                    if tr.fired:
                        count('fault %s inside an opening, survived' % op[3])
                else:
                    shim.reset()
                    for p in roots:
                        shim.prefix(p)
                    b.arm([op[2]])
                    shim.start()
                    d, e = b.attempt(lambda: Dictionary(**kws[op[1]]))
                    failed = e is not None
                d = None
            except BaseException:
                failed = True
            if k == 'fopen':
                shim.stop()
                b.add_fired(st, shim.fired_counts(), [op[2]])
            elif failed and tr.fired:
                count('fault %s inside an opening' % op[3])
            n += 1
            v = look(where)
            if v:
                return dict(v, stats=st)
        elif k == 'check':
            n += 1
            v = look(where)
            if v:
                return dict(v, stats=st)
        else:
            s = slots.get(op[1])
            if s is None:
                continue
            if k == 'tok':
                if s.d is not None and not s.closed:
                    s.create()
            elif k in ('use', 'xuse'):
                if not s.toks:
                    if s.d is None or s.closed:
                        continue
                    s.create()
                    if not s.toks:
                        continue
                try:
                    if k == 'xuse':
                        with sched.Tracer(op[4], c.EXC[op[5]]):
                            x = s.toks[-1].tokenize(op[2], dump.mode_of(op[3]))
                    else:
                        x = s.toks[-1].tokenize(op[2], dump.mode_of(op[3]))
                    dump.mlist(x)
                    if op[4]:
                        s.res.append(x)
                        if len(x):
                            s.res.append(x[0])
                    if s.closed:
                        count('uses after closing that work')
                except BaseException as e:
                    if s.closed:
                        count('uses after closing that raise')
                x = None
            elif k == 'close':
                if s.d is None:
                    continue
                n += 1
                try:
                    s.d.close()
                except Exception as e:
                    return {'viol': {'class': 'closing fails', 'msg': '%s (%s%d tokenizers, %d results held): %s: %s' % (
                        where, 'closed before, ' if s.closed else '', len(s.toks), len(s.res), type(e).__name__, e)}, 'stats': st}
                s.closed = True
                count('closes')
            elif k == 'xclose':
                if s.d is None:
                    continue
                try:
                    with sched.Tracer(op[2], c.EXC[op[3]]) as tr:
                        s.d.close()
                    s.closed = True
                except BaseException:
                    s.half = True
                    count('fault %s inside a closing' % op[3])
            elif k == 'drop':
                slots.pop(op[1])
            elif k == 'dropall':
                slots.clear()
            elif k == 'droptok':
                s.toks.clear()
            elif k == 'dropres':
                s.res.clear()
            elif k == 'dropdic':
                s.d = None
            s = None
        log.append([k, len(slots)])
    s = None
    slots.clear()
    n += 1
    v = look('in the end', True)
    if v:
        return dict(v, stats=st)
    return {'stats': st, 'sig': dump.digest(case), 'nontrivial': n > 1, 'log': dump.digest([log, sorted(st.items())]), 'evals': n}


def files_of(ctx, x, kw):
    import json
    w = ctx.world(*x[:2])
    out = {os.path.join(ctx.packages(), 'sudachidict_' + t, 'resources', 'system.dic') for t in ctx.TYPES}
    for f in os.listdir(w.dir):
        if f.endswith(('.dic', '.def', '.json', '.csv')):
            out.add(os.path.join(w.dir, f))
    for f in os.listdir(w.dir + '/cfg') if os.path.exists(w.dir + '/cfg') else []:
        out.add(os.path.join(w.dir, 'cfg', f))
    return sorted(os.path.realpath(f) for f in out)


def run(case, ctx):
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    pk = ctx.packages()
    if 'threads' in case:
        need = [[(op[2], op[3]) for ops in case['threads'] for op in ops if op[1] == i and len(op) > 2] for i in range(len(kws))]
        want = [o.oracle(ctx, x, q) for x, q in zip(case['opens'], need)]
        roots = sorted({os.path.realpath(ctx.world(*x[:2]).dir) + '/' for x in case['opens']} | {os.path.realpath(pk) + '/'})
        return finish(ctx.fork(execute_threads, case, kws, want, pk, roots), case)
    files = [files_of(ctx, x, k) for x, k in zip(case['opens'], kws)]
    roots = sorted({os.path.realpath(ctx.world(*x[:2]).dir) + '/' for x in case['opens']} | {os.path.realpath(pk) + '/'})
    return finish(ctx.fork(execute, case, kws, files, pk, roots), case)


def shrink(case):
    if 'threads' in case:
        yield from shrink_threads(case)
        return
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain'], ['tiny', 0, 0, 'plain']):
            if x != y and not x[3].startswith('type'):
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    for i, op in enumerate(case['ops']):
        if op[0] in ('use', 'xuse'):
            for t in c.shorter_texts(op[2]):
                yield dict(case, ops=case['ops'][:i] + [op[:2] + [t] + op[3:]] + case['ops'][i + 1:])
        if op[0] == 'xuse':
            yield dict(case, ops=case['ops'][:i] + [['use'] + op[1:4] + [False]] + case['ops'][i + 1:])


def shrink_threads(case):
    from .c02 import _map
    n = len(case['threads'])
    if n > 1:
        for k in range(n):
            yield dict(case, threads=[t for i, t in enumerate(case['threads']) if i != k], policy=_map(case['policy'], k), fault=None)
    if case['fault']:
        yield dict(case, fault=None)
    for k, ops in enumerate(case['threads']):
        for x in c.drop_chunks(ops):
            yield dict(case, threads=case['threads'][:k] + [x] + case['threads'][k + 1:])
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain']):
            if x != y and not x[3].startswith('type'):
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    if case['policy']['kind'] == 'replay':
        for x in c.drop_chunks(case['policy']['decisions']):
            yield dict(case, policy=dict(case['policy'], decisions=x))
