"""C17: forked worker processes do not disturb each other.

Two kinds of case.  'tree': processes, each gated at system calls on dictionary files and at chosen lines of library
code; parent and workers go on in any interleaving.  'threads': one of several simulated threads forks while the
others are in the middle of something; the worker must come through on what it inherited."""
import atexit
import gc
import os
import signal
import sys

from simkit import core, dump, procs, sched, shim
from . import common as c, opening as o
from .c01 import _first_diff, finish
from .c12 import place


def gen(r, tier, idx):
    nw = 3 if tier == 'quick' else 20
    opens = []
    for _ in range(r.choice([1, 1, 2])):
        x = o.gen_open(r, nw, invalid=0.0)
        opens.append(x)
    if r.random() < 0.3:
        return gen_threads(r, opens, nw)
    if r.random() < 0.35:
        return gen_together(r, opens)
    ps = []
    left = [r.choice([1, 1, 2, 2, 3])]

    def request(i):
        s = c.spec(*opens[i][:2])
        x = r.random()
        t = (r.choice([t for t in s.texts if len(t) <= 40] or ['']) if x < 0.6 else
             ''.join(r.sample(s.heads, min(r.choice([1, 2, 5]), len(s.heads)))))
        return [t, r.choice('ABC')]

    def grow(st, depth):
        """st: what the new process inherits: dictionaries, tokenizers (open index, dictionary), results"""
        me = len(ps)
        p = {'ops': [], 'end': r.choice(['return', 'return', 'drop', 'drop', 'close', 'atexit', 'exit', 'crash']),
             'line_p': r.choice([0, 0.003, 0.02, 0.1]), 'kill': None}
        if depth and r.random() < 0.15:
            p['kill'] = int(2 ** r.uniform(0, 7))
        ps.append(p)
        dics, toks, res = list(st[0]), list(st[1]), st[2]
        n = r.choice([3, 6, 10]) if depth else r.choice([4, 7, 12])
        for k in range(n):
            x = r.random()
            live = [j for j, t in enumerate(toks) if t is not None]
            dl = [j for j, d in enumerate(dics) if d is not None]
            if depth == 0 and k == 0 or x < (0.12 if depth == 0 or k else 0.05) or not live and not dl:
                i = r.randrange(len(opens))
                p['ops'].append(['open', i])
                dics.append(i)
                toks.append([i, len(dics) - 1])
            elif left[0] and depth < 2 and live and x < (0.45 if depth == 0 else 0.2):
                left[0] -= 1
                slot = len(ps)
                p['ops'].append(['fork', slot])
                grow((dics, toks, res), depth + 1)
            elif x < 0.82 and live:
                j = r.choice(live)
                keep = r.random() < 0.4
                p['ops'].append(['use', j] + request(toks[j][0]) + [int(keep)])
                res += keep
            elif x < 0.88 and res:
                p['ops'].append(['read', r.randrange(res)])
            elif x < 0.92 and dl:
                j = r.choice(dl)
                p['ops'].append(['tok', j])
                toks.append([dics[j], j])
            elif dl:
                j = r.choice(dl)
                p['ops'].append([r.choice(['close', 'drop']), j])
                dics[j] = None
                toks = [None if t is not None and t[1] == j else t for t in toks]
    grow(([], [], 0), 0)
    return {'kind': 'tree', 'opens': opens, 'procs': ps, 'policy': procs.random_policy(r), 'seed': r.getrandbits(30),
            'hot': procs.gen_hot(r)}


def gen_together(r, opens):
    """workers and their parent analyse with the same tokenizer at once"""
    s = c.spec(*opens[0][:2])

    def uses():
        l = []
        for _ in range(r.choice([3, 5, 8])):
            t = ''.join(r.sample(s.heads, min(r.choice([1, 2, 4, 8]), len(s.heads))))
            if r.random() < 0.2:
                t = r.choice([t for t in s.texts if len(t) <= 40] or [t])
            l.append(['use', 0, t[:40], r.choice('ABC'), int(r.random() < 0.3)])
        return l
    n = r.choice([1, 2, 2, 3])
    p = r.choice([0.02, 0.1, 0.3])

    def proc(ops):
        return {'ops': ops, 'end': r.choice(['return', 'drop', 'exit']), 'line_p': p, 'kill': None}
    ps = [proc([['open', 0]] + (uses() if r.random() < 0.7 else []) + [['fork', k + 1] for k in range(n)] + uses())]
    ps += [proc(uses()) for _ in range(n)]
    for p_ in ps[1:]:
        if r.random() < 0.3:            # a tokenizer of its own, of the inherited dictionary
            p_['ops'] = [['tok', 0]] + [[x[0], 1] + x[2:] for x in p_['ops']]
    swap = not opens[0][3].startswith('type') and r.random() < 0.4
    if swap:
        ops = r.choice(ps + ps[:1])['ops']
        ops.insert(r.randrange(ops[0][0] == 'open', len(ops) + 1), ['swap'])
    policy = r.choice([{'kind': 'random', 'seed': r.getrandbits(40)}, {'kind': 'burst', 'seed': r.getrandbits(40), 'keep': 0.5}])
    return {'kind': 'tree', 'opens': opens[:1], 'procs': ps, 'policy': policy, 'seed': r.getrandbits(30), 'hot': procs.gen_hot(r),
            'swap': swap}


def gen_threads(r, opens, nw):
    n = r.choice([1, 1, 2, 3])
    other = []
    for _ in range(n):
        jobs = []
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.5:
                x = o.gen_open(r, nw, 0.2)
                jobs.append(['open', x])
            else:
                i = r.randrange(len(opens))
                s = c.spec(*opens[i][:2])
                jobs.append(['use', i, r.choice([t for t in s.texts if len(t) <= 40] or ['']), r.choice('ABC')])
        other.append(jobs)
    forks = []
    for _ in range(r.choice([1, 1, 2, 3])):
        todo = []
        for _ in range(r.choice([1, 2, 4])):
            i = r.randrange(len(opens))
            s = c.spec(*opens[i][:2])
            t = r.choice([t for t in s.texts if len(t) <= 40] or [''])
            todo.append([r.choice(['own', 'new', 'open', 'close+open']), i, t, r.choice('ABC')])
        forks.append({'todo': todo, 'at': int(2 ** r.uniform(0, 13))})
    return {'kind': 'threads', 'opens': opens, 'other': other, 'forks': forks,
            'policy': sched.random_policy(r, 12000 * n), 'warm': r.random() < 0.5}


class State:
    def __init__(self):
        self.dics, self.toks, self.res = [], [], []


def swap_files(d, other):
    """all dictionary files below d make way for another one, as they do when they are built anew"""
    with open(other, 'rb') as f:
        data = f.read()
    for dp, _, fns in sorted(os.walk(d)):
        for n in sorted(fns):
            if n.endswith('.dic'):
                with open(os.path.join(dp, 'new'), 'wb') as f:
                    f.write(data)
                os.replace(os.path.join(dp, 'new'), os.path.join(dp, n))


def member(board, case, k, kws, S, pk, prefixes):
    """what process k does"""
    p = case['procs'][k]
    out = []
    if k == 0:
        S = State()
        sys.path.insert(0, pk)
        shim.reset()
        for x in prefixes:
            shim.prefix(x)
        shim.start()
    if p['line_p'] or case.get('hot'):
        sys.settrace(procs.lines(board, case['seed'] + k, p['line_p'], case.get('hot')))
    else:
        sys.settrace(None)
    for op in p['ops']:
        what = op[0]
        if what == 'open':
            d, err = o.do_open(kws[op[1]])
            S.dics.append(d)
            S.toks.append(d.create() if d is not None else None)
            out.append(err)
            d = None
        elif what == 'tok':
            d = S.dics[op[1]]
            S.toks.append(d.create() if d is not None else None)
            d = None
            out.append(None)
        elif what == 'use':
            t = S.toks[op[1]]
            if t is None:
                out.append(None)
                if op[4]:
                    S.res.append(None)
                continue
            x = None
            try:
                x = t.tokenize(op[2], dump.mode_of(op[3]))
                got = ['ok', dump.mlist(x)]
            except Exception as e:
                got = dump.exc(e)
            if op[4]:
                S.res.append(x)
            t = x = None
            out.append(got)
        elif what == 'read':
            x = S.res[op[1]]
            if x is None:
                out.append(None)
                continue
            try:
                out.append(['ok', dump.mlist(x)])
            except Exception as e:
                out.append(dump.exc(e))
            x = None
        elif what == 'swap':
            swap_files(prefixes[0], case['other'])
            out.append(None)
        elif what == 'fork':
            board.fork(op[1], case['seed'], member, case, op[1], kws, S, pk, prefixes)
            out.append(None)
        else:
            d = S.dics[op[1]]
            if what == 'close' and d is not None:
                d.close()
            d = S.dics[op[1]] = None
            case_toks(S, k, op[1], case)
            gc.collect()
            out.append(None)
    e = p['end']
    if e == 'close':
        for d in S.dics:
            if d is not None:
                d.close()
        d = None
    if e in ('drop', 'close', 'atexit'):
        S.dics.clear(), S.toks.clear(), S.res.clear()
        gc.collect()
    if e == 'atexit':
        atexit._run_exitfuncs()
    sys.settrace(None)
    if e == 'crash':
        shim.stop()
        board.leave(('ok', out))
        os.kill(os.getpid(), signal.SIGKILL)
    if e == 'exit':
        shim.stop()
        board.leave(('ok', out))
        os._exit(3)
    return out


def case_toks(S, k, j, case):
    for i, x in enumerate(owners(case, k)):
        if x == j and i < len(S.toks):
            S.toks[i] = None


def owners(case, k):
    """for every tokenizer process k has in the end: the number of its dictionary"""
    parent = {}
    for i, p in enumerate(case['procs']):
        for n, op in enumerate(p['ops']):
            if op[0] == 'fork':
                parent[op[1]] = (i, n)

    def walk(k, n):
        if k == 0:
            dics, toks = 0, []
        else:
            dics, toks = walk(*parent[k])
        for op in case['procs'][k]['ops'][:n]:
            if op[0] == 'open':
                dics += 1
                toks.append(dics - 1)
            elif op[0] == 'tok':
                toks.append(op[1])
        return dics, toks
    return walk(k, len(case['procs'][k]['ops']))[1]


def expectations(case):
    """per process, per op: None, ('err', open), or ('use', open, text, mode)"""
    out = {}

    def walk(k, dics, toks, res):
        dics, toks, res = list(dics), list(toks), list(res)
        out[k] = []
        for op in case['procs'][k]['ops']:
            e = None
            if op[0] == 'open':
                dics.append(op[1])
                toks.append([op[1], len(dics) - 1])
                e = ('err', op[1])
            elif op[0] == 'tok':
                toks.append([dics[op[1]], op[1]])
            elif op[0] == 'use':
                i = toks[op[1]][0]
                if i is not None:
                    e = ('use', i, op[2], op[3])
                if op[4]:
                    res.append(e)
            elif op[0] == 'read':
                e = res[op[1]]
            elif op[0] == 'fork':
                walk(op[1], dics, toks, res)
            elif op[0] != 'swap':
                dics[op[1]] = None
                toks = [[None, None] if t[1] == op[1] else t for t in toks]
            out[k].append(e)
    walk(0, [], [], [])
    return out


def forked_child(case, kws, S, todo):
    sys.settrace(None)
    out = []
    for how, i, text, m in todo:
        d = S.dics[i]
        if how == 'own':
            t = S.toks[i]
        elif how == 'new':
            t = d.create() if d is not None else None
        else:
            if how == 'close+open' and d is not None:
                d.close()
                S.dics[i] = S.toks[i] = None
            d, err = o.do_open(kws[i])
            out.append(['open', err])
            t = d.create() if d is not None else None
        if t is None:
            out.append(None)
            continue
        out.append(['use', dump.tok(t, text, m)])
    return out


def run_threads(case, kws, okws, want, owant, pk):
    from .c05 import preload
    sys.path.insert(0, pk)
    preload()
    S = State()
    for kw in kws:
        d, err = o.do_open(kw)
        S.dics.append(d)
        S.toks.append(d.create() if d is not None else None)
    if case['warm']:
        for i, t in enumerate(S.toks):
            if t is not None:
                t.tokenize('東京都', dump.mode_of('A'))
    s = sched.Sched(sched.policy(case['policy'], len(case['other']) + 1))
    forks = []
    outs = [[] for _ in case['other']]

    def forker():
        for f in case['forks']:
            n = 0
            # let the others go on for a while
            while n < f['at'] and any(not t.done for t in s.threads[:-1]):
                n += 1
                s.point('wait', None)
            forks.append(core.fork(forked_child, case, kws, S, f['todo'], timeout=30))

    def body(k):
        def go():
            for job in case['other'][k]:
                if job[0] == 'open':
                    d, err = o.do_open(okws[k].pop(0))
                    outs[k].append(['open', err])
                    d = None
                else:
                    d = S.dics[job[1]]
                    if d is None:
                        outs[k].append(None)
                        continue
                    outs[k].append(['use', dump.tok(d.create(), job[2], job[3])])
        return go
    for k in range(len(case['other'])):
        s.spawn(body(k))
    s.spawn(forker)
    res = s.run()
    st = {'switches': s.switches, 'forks in the middle of something': 0}
    rep = dict(case, policy={'kind': 'replay', 'decisions': s.decisions})

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg}, 'case': rep, 'stats': st}
    if s.failure:
        return bad('a thread does not finish', s.failure)
    for k, x in enumerate(res):
        if x[0] != 'ok':
            return bad('a thread fails', 'thread %d: %s' % (k, x[2]))
    n = 0

    def check(where, got, ref, text):
        if got is None:
            return None
        if got[0] == 'open':
            alone = ref[0][1] if ref[0] and ref[0][0] == 'noopen' else None
            if (alone is None) != (got[1] is None):
                return bad('opening differs', '%s: alone %s, here %s' % (where, alone or 'works', got[1] or 'works'))
            return None
        x, y = got[1], ref[1]
        if x != y if x[0] == 'ok' or y[0] == 'ok' else x[0] != y[0]:
            return bad('the answer differs', '%s: %r\nalone: %.1200s\nhere: %.1200s' % (where, text, _first_diff(y, x), _first_diff(x, y)))
    for fi, (f, got) in enumerate(zip(case['forks'], forks)):
        st['forks in the middle of something'] += 1
        where = 'worker %d' % fi
        if got[0] == 'hang' or got[0] == 'exc' and got[1] == 'Deadlock':
            return bad('a worker waits for ever', '%s: %s' % (where, got[-1]))
        if got[0] != 'ok':
            return bad('a worker fails', '%s: %s' % (where, ' '.join(map(str, got))))
        it = iter(got[1])
        for how, i, text, m in f['todo']:
            for x in it:
                n += 1
                v = check('%s (%s)' % (where, how), x, (want[i][('', 'C')], want[i][(text, m)]), text)
                if v:
                    return v
                if x is None or x[0] == 'use':
                    break
    for k, jobs in enumerate(case['other']):
        for job, x, ref in zip(jobs, outs[k], owant[k]):
            n += 1
            v = check('thread %d of the parent' % k, x, ref, job)
            if v:
                return v
    return {'stats': st, 'sig': s.signature(), 'nontrivial': bool(s.switches and forks),
            'log': dump.digest([s.signature(), s.step, outs, forks]), 'evals': n}


def run(case, ctx):
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    pk = ctx.packages()
    need = {i: [('', 'C')] for i in range(len(kws))}
    if case['kind'] == 'threads':
        okws, owant = [], []
        for jobs in case['other']:
            okws.append([o.kwargs(ctx, j[1]) for j in jobs if j[0] == 'open'])
            for j in jobs:
                if j[0] == 'use':
                    need[j[1]].append((j[2], j[3]))
        for f in case['forks']:
            for _, i, t, m in f['todo']:
                need[i].append((t, m))
        want = [o.oracle(ctx, x, need[i]) for i, x in enumerate(case['opens'])]
        for jobs in case['other']:
            owant.append([])
            for j in jobs:
                if j[0] == 'open':
                    owant[-1].append((o.oracle(ctx, j[1], [('', 'C')])[('', 'C')], None))
                else:
                    owant[-1].append((want[j[1]][('', 'C')], want[j[1]][(j[2], j[3])]))
        return finish(ctx.fork(run_threads, case, kws, okws, want, owant, pk))
    exp = expectations(case)
    for l in exp.values():
        for e in l:
            if e and e[0] == 'use':
                need[e[1]].append((e[2], e[3]))
    want = [o.oracle(ctx, x, need[i]) for i, x in enumerate(case['opens'])]
    prefixes = sorted({ctx.world(*x[:2]).dir + '/' for x in case['opens']})
    prefixes += [os.path.join(pk, 'sudachidict_' + t, 'resources/') for t in ctx.TYPES]
    ps = case['procs']
    case_ = case
    d = None
    if case.get('swap'):
        d = ctx.tmp('swap')
        kws = [place(ctx, x, d)[1] for x in case['opens']]
        other = ctx.world('std' if case['opens'][0][0] == 'tiny' else 'tiny', 0).dir + '/system.dic'
        case_ = dict(case, other=other)
        prefixes = [d + '/'] + prefixes
    try:
        rn = procs.run(ctx, len(ps), [(0, 0, member, (case_, 0, kws, None, pk, prefixes))], case['policy'], case['seed'],
                       {k: p['kill'] for k, p in enumerate(ps) if p['kill']})
    finally:
        if d:
            ctx.rmtree(d)
    results = rn.results
    st = {'switches': rn.switches, 'steps': rn.step, 'processes': len(results)}
    if case.get('swap'):
        st['fault dictionary files replaced'] = 1
    rep = dict(case, policy=rn.replay)

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg + '\n%d switches in %d steps' % (rn.switches, rn.step)}, 'case': rep, 'stats': st}
    if rn.failure:
        return bad('a process does not finish', rn.failure)
    n = 0
    for k in sorted(results):
        res = results[k]
        if k in rn.killed:
            st['fault worker killed'] = st.get('fault worker killed', 0) + 1
            continue
        if res[0] != 'ok':
            return bad('a process fails', 'process %d: %s' % (k, ' '.join(map(str, res))))
        if ps[k]['end'] in ('crash', 'exit'):
            st['fault worker ends by ' + ps[k]['end']] = st.get('fault worker ends by ' + ps[k]['end'], 0) + 1
        for j, (e, got) in enumerate(zip(exp[k], res[1])):
            if e is None:
                continue
            n += 1
            ref = want[e[1]]
            alone = ref[('', 'C')]
            where = 'process %d, operation %d %r' % (k, j, ps[k]['ops'][j])
            if e[0] == 'err':
                if (alone[0] == 'noopen') != (got is not None):
                    return bad('opening differs', '%s: alone %s, here %s' % (where, alone[1] if alone[0] == 'noopen' else 'works', got or 'works'))
                continue
            if got is None:
                continue
            x, y = got, ref[(e[2], e[3])]
            if x != y if x[0] == 'ok' or y[0] == 'ok' else x[0] != y[0]:
                return bad('the answer differs', '%s: %r mode %s\nalone: %.1200s\nhere: %.1200s' % (
                    where, e[2], e[3], _first_diff(y, x), _first_diff(x, y)))
    return {'stats': st, 'sig': rn.sig, 'nontrivial': rn.switches >= 2,
            'log': dump.digest([rn.sig, rn.step, sorted(results.items())]), 'evals': n}


def shrink(case):
    if case['kind'] == 'threads':
        for f in c.drop_chunks(case['forks']):
            if f:
                yield dict(case, forks=f)
        for k, f in enumerate(case['forks']):
            for todo in c.drop_chunks(f['todo']):
                if todo:
                    yield dict(case, forks=case['forks'][:k] + [dict(f, todo=todo)] + case['forks'][k + 1:])
        for k, jobs in enumerate(case['other']):
            for x in c.drop_chunks(jobs):
                if x:
                    yield dict(case, other=case['other'][:k] + [x] + case['other'][k + 1:])
        if case['policy']['kind'] == 'replay':
            for x in c.drop_chunks(case['policy']['decisions']):
                yield dict(case, policy=dict(case['policy'], decisions=x))
        return

    def put(k, **kw):
        return dict(case, procs=case['procs'][:k] + [dict(case['procs'][k], **kw)] + case['procs'][k + 1:])
    for k, p in enumerate(case['procs']):
        if p['kill']:
            yield put(k, kill=None)
        if p['end'] != 'return':
            yield put(k, end='return')
        for j, op in enumerate(p['ops']):
            ops = p['ops'][:j] + p['ops'][j + 1:]
            if op[0] == 'use' and not op[4] or op[0] in ('read', 'close', 'drop', 'swap'):
                yield put(k, ops=ops)
            elif op[0] == 'fork':
                # the last process only: slots are positions
                if op[1] == len(case['procs']) - 1:
                    x = put(k, ops=ops)
                    yield dict(x, procs=x['procs'][:-1])
            if op[0] == 'use':
                for t in c.shorter_texts(op[2]):
                    yield put(k, ops=p['ops'][:j] + [op[:2] + [t] + op[3:]] + p['ops'][j + 1:])
    if case['policy']['kind'] == 'replay':
        for x in c.drop_chunks(case['policy']['runs']):
            yield dict(case, policy=dict(case['policy'], runs=x))
