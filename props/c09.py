"""C09: tokenization gives the same result in every process."""
import gc
import os
import sys

from simkit import core, dump, sched, shim, worlds
from . import common as c, opening as o
from .c01 import _first_diff


def gen(r, tier, idx):
    nw = 5 if tier == 'quick' else 40
    opens = []
    while len(opens) < r.choice([1, 1, 2, 3]):
        x = o.gen_open(r, nw, invalid=0.03)
        if r.random() < 0.35:
            x = ['ties', r.randrange(8 if tier == 'quick' else 60), r.choice([0, 1, 2, 4, 5, 7]), 'plain']
        opens.append(x)
    reqs = []
    for i, x in enumerate(opens):
        s = c.spec(*x[:2])
        for _ in range(r.choice([2, 4, 8])):
            reqs.append([i, c.text(r, s), r.choice('ABC')])
        if r.random() < 0.3:
            reqs.append([i, ''.join(r.choice(worlds.KANJI + worlds.KATA + worlds.HIRA + worlds.ALPHA + '12一') for _ in range(15)), 'C'])
    procs = []
    for _ in range(r.choice([2, 3, 4])):
        hs, env = core.kind(r, tier)
        ops = [['t', k] for k in range(len(reqs))] + [['t', r.randrange(len(reqs))] for _ in range(r.choice([0, 3]))]
        if r.random() < 0.8:
            r.shuffle(ops)
        for _ in range(r.choice([0, 0, 2, 5])):
            ops.insert(r.randrange(len(ops) + 1), r.choice([['gc'], ['cd', cwd(r, nw)], ['reopen', r.randrange(len(opens))],
                                                            ['junk', r.randrange(5)], ['new', r.randrange(len(opens))],
                                                            ['x', r.randrange(len(reqs)), int(2 ** r.uniform(0, 11)), r.choice(c.ANY)]]))
        if r.random() < 0.15:
            ops.append(['cli', r.randrange(len(opens)), r.choice('ABC')])
        procs.append({'hash': hs, 'env': env, 'gc': r.choice([0, 0, 1, 50]), 'junk': r.randrange(4), 'ops': ops,
                      'cwd': cwd(r, nw) if r.random() < 0.5 else None, 'clock': c.gen_clock(r, 0.4)})
    return {'opens': opens, 'reqs': reqs, 'procs': procs}


def cwd(r, nw):
    """a working directory; the directories of worlds hold other files of the same names"""
    return r.choice(['/', 'scratch', [r.choice(['std', 'users']), r.randrange(min(nw, 3))], [r.choice(['std', 'ties']), r.randrange(min(nw, 3))]])


def cli_bytes(kw, lines, mode, d, pk, clock=0):
    """what the command line writes for these lines"""
    inp, out = d + '/in.txt', d + '/out.txt'
    with open(inp, 'wb') as f:
        f.write(''.join(x.replace('\n', '').replace('\r', '') + '\n' for x in lines).encode('utf-8', 'surrogatepass'))
    r = core.fork(_cli, pk, clock, ['tokenize'] + (['-r', kw['config_path']] if 'config_path' in kw else []) + ['-m', mode, '-a', '-o', out, inp])
    with open(out, 'rb') as f:
        return [r[0] if r[0] != 'exc' else r[1], f.read()]


def _cli(pk, clock, argv):
    shim.wild(clock)
    sys.path.insert(0, pk)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    worlds.cli(argv)


@c.clocked
def execute(proc, case, kws, pk, d, dirs):
    """in a child of some interpreter"""
    os.makedirs(d + '/scratch')
    sys.path.insert(0, pk)
    keep = [object() for _ in range(999 * proc['junk'])]
    if proc['gc']:
        gc.enable()
        gc.set_threshold(proc['gc'])
    dics, tks = {}, {}
    out = []

    def cd(x):
        os.chdir(d + '/scratch' if x == 'scratch' else dirs[tuple(x)] if isinstance(x, list) else x)
    if proc.get('cwd'):
        cd(proc['cwd'])
    for op in proc['ops']:
        if op[0] in ('t', 'x'):
            i, t, m = case['reqs'][op[1]]
            if i not in tks:
                dics[i], err = o.do_open(kws[i])
                tks[i] = dics[i].create() if err is None else None
                if err:
                    dics[i] = err
            if tks[i] is None:
                v = ['noopen', dics[i]]
            elif op[0] == 'x':
                try:
                    with sched.Tracer(op[2], c.EXC[op[3]]):
                        tks[i].tokenize(t, dump.mode_of(m))
                except BaseException:
                    pass
                continue
            else:
                v = dump.tok(tks[i], t, m)
            out.append([op[1], v])
        elif op[0] == 'gc':
            gc.collect()
        elif op[0] == 'cd':
            cd(op[1])
        elif op[0] == 'reopen':
            dics.pop(op[1], None)
            tks.pop(op[1], None)
        elif op[0] == 'new':
            if tks.get(op[1]):
                tks[op[1]] = dics[op[1]].create()
        elif op[0] == 'junk':
            keep.append([bytearray(op[1] * 1000 + 33) for _ in range(100)])
        elif op[0] == 'cli':
            if 'dict_type' not in kws[op[1]] and 'resource_dir' not in kws[op[1]]:
                shim.wild(0)     # not the clocks of the simulator
                out.append(['cli', op[1], op[2], cli_bytes(kws[op[1]], lines(case, op[1]), op[2], d, pk, proc['clock'])])
                shim.wild(proc['clock'])
    return out


def lines(case, i):
    return [t for k, t, _ in case['reqs'] if k == i]


def run(case, ctx):
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    pk = ctx.packages()
    dirs = {tuple(x): ctx.world(*x).dir for p in case['procs'] for x in [p.get('cwd')] + [op[1] for op in p['ops'] if op[0] == 'cd']
            if isinstance(x, list)}
    want = {}
    for i, x in enumerate(case['opens']):
        rq = [(t, m) for k, t, m in case['reqs'] if k == i]
        for (t, m), v in o.oracle(ctx, x, rq).items():
            want[(i, t, m)] = v
    st, log = {}, []
    n = 0
    d = ctx.tmp()
    try:
        for j, p in enumerate(case['procs']):
            dd = '%s/p%d' % (d, j)
            os.makedirs(dd)
            r = ctx.elsewhere(p['hash'], p['env'], execute, p, case, kws, pk, dd, dirs)
            if c.killed(r, p):
                st['interpreter killed by a failing allocation'] = 1
                continue
            if r[0] != 'ok':
                return {'viol': {'class': 'the process ends: ' + str(r[0]), 'msg': repr(r)[:3000]}, 'stats': st}
            for k in ('fault hash seed %s' % p['hash'], 'fault environment ' + p['env']):
                st[k] = st.get(k, 0) + 1
            if p.get('clock'):
                st['processes with jumping clocks'] = st.get('processes with jumping clocks', 0) + 1
            if p.get('cwd'):
                st['fault other working directory'] = st.get('fault other working directory', 0) + 1
            for op in p['ops']:
                if op[0] != 't':
                    st['operation ' + op[0]] = st.get('operation ' + op[0], 0) + 1
            for res in r[1]:
                n += 1
                if res[0] == 'cli':
                    _, i, m, got = res
                    key = ('c09cli', dump.digest([case['opens'][i], lines(case, i), m]))
                    if key not in ctx.cache:
                        os.makedirs(dd + '/ref', exist_ok=True)
                        ctx.cache[key] = cli_bytes(kws[i], lines(case, i), m, dd + '/ref', pk)
                    if got != ctx.cache[key]:
                        return {'viol': {'class': 'the command line differs', 'msg': 'process %s %s: %r, elsewhere %r' % (
                            p['hash'], p['env'], got[0], ctx.cache[key][0])}, 'stats': st}
                    log.append(dump.digest(repr(got)))
                    continue
                q, v = res
                i, t, m = case['reqs'][q]
                log.append(dump.digest(v))
                if v != want[(i, t, m)]:
                    return {'viol': {'class': 'another result', 'msg': 'process with hash seed %s, environment %s: %r in mode %s of %r: %s' % (
                        p['hash'], p['env'], t, m, case['opens'][i], _first_diff(v, want[(i, t, m)]))}, 'stats': st}
    finally:
        ctx.rmtree(d)
    return {'stats': st, 'evals': n, 'nontrivial': n > 0, 'sig': dump.digest(case), 'log': dump.digest(log)}


def shrink(case):
    for x in c.drop_chunks(case['procs']):
        if x:
            yield dict(case, procs=x)
    for i, p in enumerate(case['procs']):
        def put(p2):
            return dict(case, procs=case['procs'][:i] + [p2] + case['procs'][i + 1:])
        for x in c.drop_chunks(p['ops']):
            yield put(dict(p, ops=x))
        for k, v in (('hash', 0), ('env', 'utf8'), ('junk', 0), ('gc', 0), ('cwd', None), ('clock', 0)):
            if p.get(k) != v:
                yield put(dict(p, **{k: v}))
    for i, (k, t, m) in enumerate(case['reqs']):
        for t2 in c.shorter_texts(t):
            yield dict(case, reqs=case['reqs'][:i] + [[k, t2, m]] + case['reqs'][i + 1:])
