"""C05: dictionaries can be opened concurrently from several threads."""
import sys

from simkit import dump, sched
from . import common as c, opening as o
from .c01 import _first_diff, finish


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 25
    th = []
    base = None
    for _ in range(r.choice([2, 2, 2, 3, 4])):
        jobs = []
        for _ in range(r.choice([1, 1, 1, 2])):
            x = o.gen_open(r, nw, 0.25)
            while x[0] == 'users' and r.random() < 0.8:
                x = o.gen_open(r, nw, 0.25)
            if base and not base[3].startswith('type') and r.random() < 0.3:
                x = [base[0], base[1], r.randrange(20), base[3]]
            base = base or x
            s = c.spec(*x[:2])
            jobs.append({'open': x, 'close': int(r.random() < 0.2),
                         'use': [[r.choice([t for t in s.texts if len(t) <= 10]), r.choice('ABC')] for _ in range(r.choice([1, 2, 3]))]})
        th.append(jobs)
    return {'threads': th, 'before': o.gen_open(r, nw, 0.3) if r.random() < 0.3 else None,
            'policy': sched.random_policy(r, 12000 * len(th)),
            'fault': [r.randrange(len(th)), int(2 ** r.uniform(0, 12)), r.choice(c.RAISED)] if r.random() < 0.15 else None}


def preload():
    """plugin modules: a thread that is stopped inside an import would hold a lock the simulator does not know"""
    import sudachipy.plugin.input_text, sudachipy.plugin.oov, sudachipy.plugin.path_rewrite  # noqa
    for t in ('core', 'small', 'full'):
        __import__('sudachidict_' + t)


def execute(case, kws, want, before, pk):
    sys.path.insert(0, pk)
    preload()
    if before:
        o.do_open(before)
    n = len(case['threads'])
    s = sched.Sched(sched.policy(case['policy'], n))
    out = [[] for _ in range(n)]

    def body(k):
        def go():
            for j, job in enumerate(case['threads'][k]):
                try:
                    d, err = o.do_open(kws[k][j])
                    out[k].append([err])
                    if d is None:
                        continue
                    t = d.create()
                    for text, m in job['use']:
                        out[k][-1].append(dump.tok(t, text, m))
                    if job['close']:
                        try:
                            d.close()
                        except Exception:
                            pass
                    t = d = None
                except BaseException as e:
                    if 'injected' not in str(e):
                        raise
        return go
    f = case['fault']
    for k in range(n):
        s.spawn(body(k), (f[1], c.EXC[f[2]]) if f and f[0] == k else None)
    res = s.run()
    st = {'switches': s.switches, 'scheduler steps': s.step}
    if s.fired:
        st['fault %s in library code' % f[2]] = 1
    rep = dict(case, policy={'kind': 'replay', 'decisions': s.decisions})

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg + '\n%d context switches in %d steps' % (s.switches, s.step)}, 'case': rep, 'stats': st}
    if s.failure:
        return bad('an opening does not finish', s.failure)
    ev = 0
    for k, jobs in enumerate(case['threads']):
        if res[k][0] != 'ok':
            return bad('a thread fails', 'thread %d: %s' % (k, res[k][2]))
        if s.fired and f[0] == k:
            continue
        for j, job in enumerate(jobs):
            got, ref = out[k][j], want[k][j]
            ev += 1
            alone = ref[0][1] if ref[0][0] == 'noopen' else None
            if (got[0] is None) != (alone is None):
                return bad('opening differs', 'thread %d opening %r alone: %s; here: %s' % (
                    k, job['open'], alone or 'works', got[0] or 'works'))
            if alone:
                st['fault opening that must fail'] = st.get('fault opening that must fail', 0) + 1
                continue
            for (text, m), x, y in zip(job['use'], got[1:], ref):
                ev += 1
                if x != y if x[0] == 'ok' or y[0] == 'ok' else x[0] != y[0]:
                    return bad('the answer differs', 'thread %d %r: %r mode %s\nalone: %.1200s\nhere: %.1200s' % (
                        k, job['open'], text, m, _first_diff(y, x), _first_diff(x, y)))
    return {'stats': st, 'sig': s.signature(), 'nontrivial': s.switches >= 2, 'log': dump.digest([s.signature(), s.step, out]), 'evals': ev}


def run(case, ctx):
    kws = [[o.kwargs(ctx, j['open']) for j in jobs] for jobs in case['threads']]
    want = []
    for jobs in case['threads']:
        want.append([])
        for j in jobs:
            w = o.oracle(ctx, j['open'], [(t, m) for t, m in j['use']])
            want[-1].append([w[(t, m)] for t, m in j['use']])
    return finish(ctx.fork(execute, case, kws, want, o.kwargs(ctx, case['before']) if case['before'] else None, ctx.packages()))


def shrink(case):
    from .c02 import _map
    n = len(case['threads'])
    if n > 2:
        for k in range(n):
            yield dict(case, threads=[t for i, t in enumerate(case['threads']) if i != k], policy=_map(case['policy'], k), fault=None)
    if case['fault']:
        yield dict(case, fault=None)
    if case['before']:
        yield dict(case, before=None)
    for k, jobs in enumerate(case['threads']):
        for x in c.drop_chunks(jobs):
            if x:
                yield dict(case, threads=case['threads'][:k] + [x] + case['threads'][k + 1:])
        for j, job in enumerate(jobs):
            for u in c.drop_chunks(job['use']):
                if u:
                    yield dict(case, threads=case['threads'][:k] + [jobs[:j] + [dict(job, use=u)] + jobs[j + 1:]] + case['threads'][k + 1:])
    if case['policy']['kind'] == 'replay':
        for x in c.drop_chunks(case['policy']['decisions']):
            yield dict(case, policy=dict(case['policy'], decisions=x))
