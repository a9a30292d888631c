"""C16: opening a dictionary under faults is all-or-nothing."""
import gc
import os
import signal
import sys

from simkit import dump, sched, shim
from . import building as b, common as c, opening as o
from .c01 import _first_diff, finish

KINDS = ['open', 'open', 'open', 'read', 'read', 'read', 'mmap', 'close', 'stat', 'any', 'any']


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 30
    opens = [o.gen_open(r, nw, invalid=0.05) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    for _ in range(r.choice([1, 2, 4, 6])):
        i = r.randrange(len(opens))
        x = r.random()
        s = c.spec(*opens[i][:2])
        reqs = [[c.text(r, s), r.choice('ABC')] for _ in range(r.choice([1, 2, 4]))]
        if r.random() < 0.6:
            reqs += [[t, 'C'] for t in r.sample(c.sweep_texts(s), 1)]
        if r.random() < 0.5:
            reqs.append([''.join(r.sample(s.heads[:40], min(6, len(s.heads), 40))), 'A'])
        f = {'open': i, 'reqs': reqs, 'plan': [], 'caps': {}, 'event': None, 'exc': None}
        if x < 0.4:
            fault, f['caps'] = b.aim(r, o.targets(s), signal=True)
            f['plan'] = [fault]
        elif x < 0.7:
            f['plan'] = [b.gen_fault(r, crash=False, kinds=KINDS, span=r.choice([2, 6, 12, 40]), signal=True)]
            if r.random() < 0.3:
                f['plan'].append(b.gen_fault(r, crash=False, kinds=KINDS, span=r.choice([6, 20])))
            if f['plan'][0][0] == 'open' and r.random() < 0.1:
                f['plan'][0] = ['open', f['plan'][0][1], 2, 'error', 'EINTR', 0]
        elif x < 0.82:
            f['event'], f['exc'] = int(2 ** r.uniform(0, 13.5)), r.choice(c.ANY)
        if r.random() < 0.3 and not f['caps']:
            f['caps'] = {'read': [r.choice([-1, 0, 1, 2, 7, 100, 4096]) for _ in range(r.randrange(1, 6))] + [0]}
        ops.append(f)
        if r.random() < 0.6:
            ops.append({'open': i, 'reqs': reqs, 'plan': [], 'caps': {}, 'event': None, 'exc': None})
    return {'opens': opens, 'ops': ops, 'keep': r.random() < 0.5, 'cwd': c.pick_world(r, ['std', 'users'], 3) if r.random() < 0.3 else None}


def execute(case, kws, want, pk, prefixes, cwd):
    from sudachipy.dictionary import Dictionary
    sys.path.insert(0, pk)
    if cwd:
        os.chdir(cwd)
    st, log = {}, []
    n = 0
    kept = []

    def count(k):
        st[k] = st.get(k, 0) + 1
    for i, op in enumerate(case['ops']):
        ref = want[op['open']]
        first = ref[('', 'C')]
        clean = not (op['plan'] or op['event'])
        shim.reset()
        for p in prefixes:
            shim.prefix(p)
        shim.stat(1)
        b.arm(op['plan'])
        b.set_caps(op['caps'])
        d = err = None
        tr = sched.Tracer(op['event'], c.EXC[op['exc']] if op['exc'] else None)
        shim.start()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        try:
            try:
                if op['event']:
                    with tr:
                        d = Dictionary(**kws[op['open']])
                else:
                    d = Dictionary(**kws[op['open']])
            except BaseException as e:
                err = type(e).__name__
            for _ in range(3):      # an interruption that has not yet been noticed
                pass
        except KeyboardInterrupt:
            d, err = None, 'KeyboardInterrupt'
        shim.stop()
        fired = shim.fired_counts()
        b.add_fired(st, fired, op['plan'])
        if tr.fired:
            count('fault %s inside an opening' % op['exc'])
        log.append([err, tr.fired, sorted(fired.items())])
        n += 1
        where = 'operation %d (%s)' % (i, 'no faults' if clean else 'faults %s %s' % (fired, tr.fired or ''))
        hit = tr.fired or any(k != 'short/EINTR transfer' for k in fired)
        if err is not None:
            count('openings that raise')
            if not hit and first[0] != 'noopen':
                return {'viol': {'class': 'an opening without faults fails', 'msg': '%s: %s' % (where, err)}, 'stats': st}
            if not hit and first[1] != err:
                return {'viol': {'class': 'opening differs', 'msg': '%s: alone %s, here %s' % (where, first[1], err)}, 'stats': st}
            continue
        count('openings that work, with a fault' if hit else 'openings that work')
        if first[0] == 'noopen':
            return {'viol': {'class': 'an opening that must fail works', 'msg': '%s: %s' % (where, first[1])}, 'stats': st}
        t = d.create()
        for text, mode in op['reqs']:
            got = dump.tok(t, text, mode)
            n += 1
            log.append(dump.digest(got))
            x = ref[(text, mode)]
            if got != x if x[0] == 'ok' or got[0] == 'ok' else got[0] != x[0]:
                return {'viol': {'class': 'something is missing', 'msg': '%s, %r mode %s\nwithout faults: %.1500s\nhere: %.1500s' % (
                    where, text, mode, _first_diff(x, got), _first_diff(got, x))}, 'stats': st}
        if case['keep']:
            kept.append((d, t))
        d = t = None
        gc.collect()
    return {'stats': st, 'sig': dump.digest([case['opens'], [[x[k] for k in ('open', 'plan', 'caps', 'event', 'exc')] for x in case['ops']]]),
            'nontrivial': any(k.startswith('fault') for k in st), 'log': dump.digest([log, sorted(st.items())]), 'evals': n}


def run(case, ctx):
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    need = {i: [('', 'C')] for i in range(len(kws))}
    for op in case['ops']:
        need[op['open']] += [tuple(q) for q in op['reqs']]
    want = [o.oracle(ctx, x, need[i]) for i, x in enumerate(case['opens'])]
    pk = ctx.packages()
    prefixes = sorted({ctx.world(*x[:2]).dir + '/' for x in case['opens']})
    prefixes += [os.path.join(pk, 'sudachidict_' + t, 'resources/') for t in ctx.TYPES]
    prefixes.append(os.path.join(os.environ['VERIF_LIB'], 'sudachipy', 'resources/'))
    return finish(ctx.fork(execute, case, kws, want, pk, prefixes, ctx.world(*case['cwd']).dir if case.get('cwd') else None), case)


def shrink(case):
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    if case['keep']:
        yield dict(case, keep=False)
    if case.get('cwd'):
        yield dict(case, cwd=None)
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain']):
            if x != y and not x[3].startswith('type'):
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    for i, op in enumerate(case['ops']):
        def put(**kw):
            return dict(case, ops=case['ops'][:i] + [dict(op, **kw)] + case['ops'][i + 1:])
        for p in c.drop_chunks(op['plan']):
            yield put(plan=p)
        for j, f in enumerate(op['plan']):
            if f[1]:
                yield put(plan=op['plan'][:j] + [[f[0], f[1] - 1] + f[2:]] + op['plan'][j + 1:])
        if op['caps']:
            yield put(caps={})
        if op['event']:
            yield put(event=None, exc=None)
            for k in (op['event'] // 2, op['event'] - 1):
                if k:
                    yield put(event=k)
        for q in c.drop_chunks(op['reqs']):
            yield put(reqs=q)
        for j, q in enumerate(op['reqs']):
            for t in c.shorter_texts(q[0]):
                yield put(reqs=op['reqs'][:j] + [[t, q[1]]] + op['reqs'][j + 1:])
