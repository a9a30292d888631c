"""C02: tokenizers that share a dictionary work in parallel threads."""
from simkit import dump, sched
from . import common as c
from .c01 import _first_diff, finish

POOL = ['std'] * 5 + ['ties', 'tiny', 'nouser', 'big', 'users']


def gen(r, tier, idx):
    w = c.pick_world(r, POOL, 6 if tier == 'quick' else 40)
    s = c.spec(*w)
    nt = r.choice([2, 2, 2, 3, 4])
    same = r.random() < 0.3
    short = [t for t in s.texts if 0 < len(t) <= 12]
    base = [r.choice(short) for _ in range(3)]
    th = []
    for k in range(nt):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(base) if same or r.random() < 0.5 else r.choice(short)
            if r.random() < 0.3:
                t = c.related(r, t)
            ops.append([t, c.mode(r)])
        th.append({'mode': c.mode(r), 'create': int(r.random() < 0.3), 'ops': ops})
    case = {'world': w, 'threads': th, 'warm': [r.choice(short)] if r.random() < 0.3 else [],
            'policy': sched.random_policy(r, 6000 * nt), 'fault': None}
    if r.random() < 0.15:
        case['fault'] = [r.randrange(nt), c.event(r, th[0]['ops'][0][0]), r.choice(c.RAISED)]
    return case


def execute(case, config, want):
    from sudachipy.dictionary import Dictionary
    d = Dictionary(config_path=config)
    for t in case['warm']:
        dump.tok(d.create(), t, 'C')
    s = sched.Sched(sched.policy(case['policy'], len(case['threads'])))
    toks = [None if th['create'] else d.create(dump.mode_of(th['mode'])) for th in case['threads']]
    out = [[] for _ in toks]

    def body(k):
        th = case['threads'][k]

        def go():
            t = toks[k]
            i = 0
            while i < len(th['ops']):
                text, m = th['ops'][i]
                try:
                    if t is None:
                        t = d.create(dump.mode_of(th['mode']))
                    out[k].append(dump.tok(t, text, m))
                except BaseException as e:
                    if 'injected' not in str(e):
                        raise
                    out[k].append(['injected'])
                i += 1
        return go
    for k in range(len(toks)):
        f = case['fault']
        s.spawn(body(k), (f[1], c.EXC[f[2]]) if f and f[0] == k else None)
    res = s.run()
    st = {'switches': s.switches, 'scheduler steps': s.step}
    if s.fired:
        st['fault %s in library code' % case['fault'][2]] = 1
    rep = dict(case, policy={'kind': 'replay', 'decisions': s.decisions})

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg + '\n%d context switches in %d steps' % (s.switches, s.step)}, 'case': rep,
                'stats': st}
    if s.failure:
        return bad('a call does not finish', s.failure)
    n = 0
    for k, th in enumerate(case['threads']):
        if res[k][0] != 'ok':
            return bad('a thread fails', 'thread %d: %s' % (k, res[k][2]))
        for (text, m), got in zip(th['ops'], out[k]):
            ref = want[(text, m or th['mode'] or 'C')]
            n += 1
            if got == ['injected'] or (got[0] == 'exception' and s.fired and case['fault'][0] == k
                                       and got[1] == c.EXC[case['fault'][2]].__name__):
                continue
            if got != ref if ref[0] == 'ok' or got[0] == 'ok' else False:
                return bad('the answer differs' if got[0] == 'ok' else 'the call raises',
                           'thread %d, %r mode %s\nalone: %.1200s\nhere: %.1200s' % (
                               k, text, m, _first_diff(ref, got), _first_diff(got, ref)))
    return {'stats': st, 'sig': s.signature(), 'nontrivial': s.switches >= 2,
            'log': dump.digest([s.signature(), s.step, out]), 'evals': n}


def run(case, ctx):
    w = ctx.world(*case['world'])
    want = ctx.fresh_many(w, [(t, m or th['mode'] or 'C') for th in case['threads'] for t, m in th['ops']])
    return finish(ctx.fork(execute, case, w.config, want))


def shrink(case):
    n = len(case['threads'])
    if n > 2:
        for k in range(n):
            yield dict(case, threads=[t for i, t in enumerate(case['threads']) if i != k],
                       policy=_map(case['policy'], k))
    if case['fault']:
        yield dict(case, fault=None)
    if case['warm']:
        yield dict(case, warm=[])
    for k, th in enumerate(case['threads']):
        for ops in c.drop_chunks(th['ops']):
            if ops:
                yield dict(case, threads=case['threads'][:k] + [dict(th, ops=ops)] + case['threads'][k + 1:])
    if case['policy']['kind'] == 'replay':
        d = case['policy']['decisions']
        for x in c.drop_chunks(d):
            yield dict(case, policy=dict(case['policy'], decisions=x))
    for k, th in enumerate(case['threads']):
        for i, (t, m) in enumerate(th['ops']):
            for x in c.shorter_texts(t):
                yield dict(case, threads=case['threads'][:k] + [dict(th, ops=th['ops'][:i] + [[x, m]] + th['ops'][i + 1:])] +
                           case['threads'][k + 1:])


def _map(p, k):
    if p['kind'] != 'replay':
        return p
    return dict(p, decisions=[[s, t - (t > k)] for s, t in p['decisions'] if t != k])
