"""C15: rebuilding a dictionary never disturbs those who use it."""
import csv
import gc
import io
import json
import os
import sys

from simkit import core, dump, procs, shim, variants
from . import building as b, common as c, opening as o
from .c01 import _first_diff

POOL = ['std', 'std', 'tiny', 'ties']
SIZE = [0, 1, 2, 3, 1, 0]        # versions 1 and 4, and 0 and 5, are files of the same size


def gen(r, tier, idx):
    p, s = c.pick_world(r, POOL, 3 if tier == 'quick' else 15)
    w = c.spec(p, s)
    target = 'system.dic' if not w.users or r.random() < 0.55 else w.users[0][:-4] + '.dic'
    short = [t for t in w.texts if 0 < len(t) <= 30] + w.heads[:30]
    ps = []
    nb = r.choice([1, 1, 2, 2, 3])
    nr = r.choice([1, 1, 2, 3])
    at = r.choice([1, 40, 150])
    versions = r.choice([[1, 2, 3], [1, 2, 3, 4, 5], [5], [1, 4]])
    for _ in range(nb):
        d = {'do': 'build', 'version': r.choice(versions), 'start': r.choice([0, 0, r.randrange(at)]), 'plan': [], 'caps': {},
             'bad': None, 'kill': None}
        x = r.random()
        if x < 0.15:
            d['kill'] = int(2 ** r.uniform(0, 7))
        elif x < 0.3:
            d['plan'] = [b.gen_fault(r, crash=False)]
            if r.random() < 0.4:
                d['plan'] = [b.aim(r, ['/source.csv', '/matrix.v.def', '.tmp', '.dic', '.dic'], False,
                                   ('open', 'read', 'read', 'write', 'write', 'mmap', 'close', 'fsync', 'rename'))[0]]
            if d['plan'][0][3] == 'short' and d['plan'][0][2] < 0:
                d['plan'][0][4] = 1000
        elif x < 0.36:
            d['bad'] = r.choice(['bad cost', 'short row', 'bad bytes'])
        if r.random() < 0.25:
            d['caps'] = {k: [x if x <= 0 or x > 500 else x * 500 for x in v] for k, v in b.gen_caps(r).items()}
        ps.append(d)
    for _ in range(nr):
        ops = []
        n = 0
        for _ in range(r.choice([2, 4, 7, 10])):
            x = r.random()
            if x < 0.35 or not n:
                ops.append(['open'])
                n += 1
            elif x < 0.93:
                ops.append([r.choice(['use'] * 4 + ['new', 'worker']), r.randrange(n), r.choice(short), r.choice('ABC')])
            else:
                ops.append(['close', r.randrange(n)])
        ps.append({'do': 'read', 'ops': ops, 'start': r.choice([0, 0, r.randrange(at)]), 'line_p': r.choice([0, 0, 0.01, 0.1]), 'hot': procs.gen_hot(r),
                   'variant': r.choice([0, 0, 1, 2]), 'kill': r.choice([None] * 6 + [int(2 ** r.uniform(0, 6))])})
    if target == 'system.dic' and w.users and r.random() < 0.2:
        ps.append({'do': 'ubuild', 'start': r.choice([0, r.randrange(at)]), 'kill': None})
    r.shuffle(ps)
    return {'world': [p, s], 'target': target, 'procs': ps, 'policy': procs.random_policy(r), 'seed': r.getrandbits(30),
            'link': r.random() < 0.1}


def source(spec, name, v):
    """version v of a source: other normalized forms, more rows, more parts of speech"""
    z = SIZE[v]
    out = io.StringIO()
    wr = csv.writer(out, lineterminator='\n')
    for row in csv.reader(io.StringIO(spec.files[name])):
        if z and row[12] != '*':
            row[12] = row[12] + 'v%d' % v
        elif v and row[12] not in ('*', '', row[0], row[4]) and row[12][-1] < '\ud800' and row[12][:-1] + '版' not in (row[0], row[4]):
            row[12] = row[12][:-1] + '版'
        last = row
        wr.writerow(row)
    for i in range(7 * z * z):
        x = list(last)
        x[0] = x[4] = x[11] = '版%dの%d' % (z, i)
        x[12] = x[0] + 'v%d' % v
        x[13:18] = ['*', 'A', '*', '*', '*']
        if i < 3 * z:
            x[5:11] = ['版', str(v), str(i), '*', '*', '*']
        wr.writerow(x)
    return out.getvalue()


def matrix(spec, v):
    """version v of the connection costs"""
    ls = spec.files['matrix.def'].splitlines()
    for i in range(1 + v, len(ls), 5):
        x = ls[i].split()
        if v and len(x) == 3 and abs(int(x[2])) < 30000:
            ls[i] = ' '.join(x[:2] + [str(int(x[2]) + 300 * v)])
    return '\n'.join(ls) + '\n'


def place(w, d, target):
    """links to everything the dictionary needs, but the target"""
    for k in range(3):
        w.variant(k)
    os.makedirs(d)
    for f in os.listdir(w.dir):
        if os.path.isfile(os.path.join(w.dir, f)) and f != target:
            os.link(os.path.join(w.dir, f), os.path.join(d, f))


def argv(w, target, out, src, system, matrix):
    if target == 'system.dic':
        return ['build', '-o', out, '-d', w.spec.desc, '-m', matrix, src]
    return ['ubuild', '-o', out, '-d', w.spec.desc, '-s', system, src]


def reference(ctx, w, target, v):
    """directory with version v of the dictionary, and the sources; kept"""
    k = ('c15', w.key, target, v)
    if k not in ctx.cache or not os.path.exists(ctx.cache[k]):
        d = ctx.tmp('ver')
        os.rmdir(d)
        place(w, d, target)
        src = d + '/source.csv'
        with open(src, 'w', encoding='utf-8') as f:
            f.write(source(w.spec, 'lex.csv' if target == 'system.dic' else target[:-4] + '.csv', v))
        with open(d + '/matrix.v.def', 'w', encoding='utf-8') as f:
            f.write(matrix(w.spec, v))
        r = ctx.fork(b.cli_child, argv(w, target, d + '/' + target, src, d + '/system.dic', d + '/matrix.v.def'), [d + '/'])
        if r[0] != 'ok' or r[1]['exit'] != 0:
            raise core.HarnessError('reference build: %r' % (r,))
        ctx.cache[k] = d
    return ctx.cache[k]


def kwargs(w, d, variant):
    return {k: v.replace(w.dir, d) for k, v in w.variant(variant).items()}


def builder(board, p, args, d, i):
    t0 = board.now()
    args = [a.replace('@', d) for a in args]
    more = []
    if p['plan'] and len(p['plan'][0]) > 6:         # a fault of one file, perhaps of a source
        more = [os.path.dirname(a) + '/' for a in args if a.endswith(('.csv', '.def')) and not a.startswith(d)]
    r = b.cli_child(args, [d + '/'] + more, p['plan'], p['caps'])
    return [t0, board.now(), r['exit'], r['err'], r['fired']]


def worker(dic, text, mode):
    """a forked process that uses an inherited dictionary"""
    sys.settrace(None)
    shim.stop()
    return dump.tok(dic.create(), text, mode)


def reader(board, p, kw, d, seed, pk):
    sys.path.insert(0, pk)
    shim.reset()
    shim.prefix(d + '/')
    shim.start()
    out, dics = [], []
    if p['line_p'] or p.get('hot'):
        sys.settrace(procs.lines(board, seed, p['line_p'], p.get('hot')))
    for op in p['ops']:
        board.gate()
        if op[0] == 'open':
            t0 = board.now()
            dic, err = o.do_open(kw)
            out.append(['open', t0, board.now(), err])
            dics.append([dic, dic.create()] if dic is not None else None)
        elif op[0] != 'close':
            x = dics[op[1]]
            if x is None or x[0] is None:
                out.append(None)
            elif op[0] == 'worker':
                y = core.fork(worker, x[0], op[2], op[3])
                out.append(['use', op[1], y[1] if y[0] == 'ok' else list(y)])
            elif op[0] == 'new':
                out.append(['use', op[1], dump.tok(x[0].create(), op[2], op[3])])
            else:
                out.append(['use', op[1], dump.tok(x[1], op[2], op[3])])
        else:
            x = dics[op[1]]
            if x is not None and x[0] is not None:
                x[0].close()
                dics[op[1]] = None
                gc.collect()
            out.append(None)
    sys.settrace(None)
    shim.stop()
    return out


def run(case, ctx):
    w = ctx.world(*case['world'])
    target = case['target']
    refs = {v: reference(ctx, w, target, v) for v in sorted({0} | {p['version'] for p in case['procs'] if p['do'] == 'build'})}
    content = {v: b.read(os.path.join(x, target)) for v, x in refs.items()}
    d = ctx.tmp()
    try:
        return judge(case, ctx, w, target, refs, content, d)
    finally:
        ctx.rmtree(d)


def judge(case, ctx, w, target, refs, content, d):
    st = {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    os.rmdir(d)
    place(w, d, target)
    path = os.path.join(d, target)
    real = path
    if case['link']:
        real = d + '/real.bin'
        os.symlink('real.bin', path)
    with open(real, 'wb') as f:
        f.write(content[0])
    starts, kills = [], {}
    ps = case['procs']
    for k, p in enumerate(ps):
        if p['do'] == 'build':
            src = refs[p['version']] + '/source.csv'
            if p['bad']:
                src = '%s/src%d.csv' % (d, k)
                good = b.read(refs[p['version']] + '/source.csv')
                bad = {'bad cost': good.split(b'\n')[0].replace(b',', b',x', 3), 'short row': b'a,b', 'bad bytes': b'\xff\xfe,1,1,1'}[p['bad']]
                with open(src, 'wb') as f:
                    f.write(good + bad + b'\n')
            a = argv(w, target, '@/' + target, src, '@/system.dic', refs[p['version']] + '/matrix.v.def')
            starts.append([k, p['start'], builder, (p, a, d, k)])
        elif p['do'] == 'ubuild':
            u = w.spec.users[0]
            a = ['ubuild', '-o', '@/against.dic', '-d', w.spec.desc, '-s', '@/' + target, w.dir + '/' + u]
            starts.append([k, p['start'], builder, ({'plan': [], 'caps': {}}, a, d, k)])
        else:
            kw = kwargs(w, d, p['variant'])
            starts.append([k, p['start'], reader, (p, kw, d, case['seed'] + k, ctx.packages())])
        if p['kill'] is not None:
            kills[k] = p['kill']
    run_ = procs.run(ctx, len(ps), starts, case['policy'], case['seed'], kills)
    res = run_.results
    rep = dict(case, policy=run_.replay)
    count('switches', run_.switches)
    count('steps', run_.step)
    for k in run_.killed:
        count('fault %s killed' % ('builder' if ps[k]['do'] == 'build' else 'reader'))

    def bad(cls, msg):
        return {'viol': {'class': cls, 'msg': msg.replace(d, '') + '\nprocesses: %s; %d switches in %d steps' % (
            [p['do'] for p in ps], run_.switches, run_.step)}, 'case': rep, 'stats': st}
    if run_.failure:
        return bad('no end', run_.failure)
    builds = []         # version, start, end, success
    for k, p in enumerate(ps):
        x = res.get(k)
        if k in run_.killed:
            if p['do'] == 'build':
                builds.append([p['version'], 0, 1 << 60, False])
            continue
        if x is None or x[0] != 'ok':
            return bad('a %s ends: %s' % (p['do'], x and x[0]), 'process %d: %r' % (k, x))
        x = x[1]
        if p['do'] == 'build':
            b.add_fired(st, x[4], p['plan'])
            if p['bad']:
                count('fault bad source')
            if x[2] and not p['plan'] and not p['bad']:
                return bad('a build fails because of another', 'process %d: status %d %s' % (k, x[2], x[3]))
            builds.append([p['version'] if not p['bad'] else 0, x[0], x[1], x[2] == 0])
            count('builds that succeeded' if x[2] == 0 else 'builds that failed')
    n = 0
    logs = []

    def allowed(t0, t1):
        """versions a dictionary opened between t0 and t1 may have"""
        done = [y for y in builds if y[3]]
        ok = set()
        if not any(y[2] < t0 for y in done):
            ok.add(0)
        for v, s, e, good in builds:
            if s <= t1 and not any(y[1] > e and y[2] < t0 for y in done):
                ok.add(v)
        return ok
    need = set()
    for k, p in enumerate(ps):
        if p['do'] == 'read':
            need |= {(op[2], op[3], p['variant']) for op in p['ops'] if op[0] not in ('open', 'close')}
    for k, p in enumerate(ps):
        if k in run_.killed or p['do'] == 'build':
            continue
        x = res[k][1]
        if p['do'] == 'ubuild':
            n += 1
            if x[2] != 0:
                return bad('ubuild fails', 'process %d: status %d %s' % (k, x[2], x[3]))
            against = b.read(d + '/against.dic')
            outs = []
            for v in allowed(x[0], x[1]):
                outs.append(against_ref(ctx, w, refs, target, v))
            if against not in outs:
                return bad('ubuild used no complete version', 'process %d' % k)
            continue
        vs = []
        want = {}
        for v in refs:
            want[v] = ctx.fresh_many(w, [(t, m) for t, m, va in need if va == p['variant']],
                                     json.dumps(kwargs(w, refs[v], p['variant'])))
        for op, y in zip(p['ops'], x):
            if y is None:
                continue
            if y[0] == 'open':
                n += 1
                logs.append(y)
                if y[3]:
                    return bad('opening fails', 'process %d, between steps %d and %d: %s' % (k, y[1], y[2], y[3]))
                vs.append(allowed(y[1], y[2]))
            else:
                n += 1
                got = y[2]
                logs.append(dump.digest(got))
                ok = {v for v in vs[y[1]] if want[v][(op[2], op[3])] == got}
                if not ok:
                    every = [v for v in refs if want[v][(op[2], op[3])] == got]
                    return bad('the answer is of no complete version' if not every else 'the answer is of another version',
                               'process %d, dictionary %d, %r mode %s: possible versions %s, answer is of %s\nhere: %.1200s' % (
                                   k, y[1], op[2], op[3], sorted(vs[y[1]]), every, _first_diff(got, want[max(vs[y[1]])][(op[2], op[3])])))
                vs[y[1]] = ok
    fin = b.read(path)
    n += 1
    ok = allowed(1 << 59, 1 << 59)
    if fin not in [content[v] for v in ok]:
        every = [v for v in refs if content[v] == fin]
        return bad('the path holds no complete output' if not every else 'the path holds a version that was replaced',
                   'in the end: %s bytes; possible versions %s, holds %s' % (None if fin is None else len(fin), sorted(ok), every))
    return {'stats': st, 'evals': n, 'sig': run_.sig, 'nontrivial': run_.switches >= 2,
            'log': dump.digest([run_.sig, run_.step, logs, fin and dump.digest(len(fin))])}


def against_ref(ctx, w, refs, target, v):
    k = ('c15a', w.key, v)
    if k not in ctx.cache:
        d = ctx.tmp('ag')
        u = w.spec.users[0]
        r = ctx.fork(b.cli_child, ['ubuild', '-o', d + '/x.dic', '-d', w.spec.desc, '-s', refs[v] + '/' + target, w.dir + '/' + u], [d + '/'])
        if r[0] != 'ok' or r[1]['exit'] != 0:
            raise core.HarnessError('reference ubuild: %r' % (r,))
        ctx.cache[k] = b.read(d + '/x.dic')
        ctx.rmtree(d)
    return ctx.cache[k]


def shrink(case):
    ps = case['procs']
    for i in range(len(ps)):
        if len(ps) > 1:
            pol = case['policy']
            if pol['kind'] == 'replay':
                pol = dict(pol, runs=[[a - (a > i), n] for a, n in pol['runs'] if a != i])
            yield dict(case, procs=ps[:i] + ps[i + 1:], policy=pol)
    if case['link']:
        yield dict(case, link=False)
    for i, p in enumerate(ps):
        def put(**kw):
            return dict(case, procs=ps[:i] + [dict(p, **kw)] + ps[i + 1:])
        for k, v in (('kill', None), ('plan', []), ('caps', {}), ('bad', None), ('line_p', 0), ('hot', None), ('start', 0), ('variant', 0)):
            if p.get(k, v) != v:
                yield put(**{k: v})
        if p['do'] == 'read':
            for j in range(len(p['ops']) - 1, -1, -1):
                if p['ops'][j][0] != 'open' or j == len(p['ops']) - 1:
                    yield put(ops=p['ops'][:j] + p['ops'][j + 1:])
    if case['policy']['kind'] == 'replay':
        runs = case['policy']['runs']
        for x in c.drop_chunks(runs):
            yield dict(case, policy=dict(case['policy'], runs=x))
