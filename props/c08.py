"""C08: dictionary builds are reproducible."""
import csv
import gc
import io
import os
import random
import struct
import sys

from simkit import core, dump, shim, sched, worlds
from . import building as b, c07, common as c, opening

POOL = ['std', 'std', 'tiny', 'ties', 'nouser', 'std', 'users', 'big']
FEATS = [f for f in c07.FEATS if f not in ('very long', 'many words')]


def gen(r, tier, idx):
    srcs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.6:
            w = c.pick_world(r, POOL, 4 if tier == 'quick' else 40)
            n = len(c.spec(*w).users)
            srcs.append(['world'] + w + [r.randrange(n) if n and r.random() < 0.5 else -1])
        else:
            k = r.choice([0, 2, 5, len(FEATS)])
            srcs.append(['made', {'seed': r.getrandbits(32), 'feats': r.sample(FEATS, k), 'n': r.choice([1, 3, 10, 30]),
                                  'nuser': 1, 'un': r.choice([1, 5])}, r.choice([-1, -1, 0])])
            if r.random() < 0.5 and 'inline refs' not in srcs[-1][1]['feats']:
                srcs[-1][1]['feats'].append('inline refs')
        if r.random() < 0.5:        # nearly the same source: all the ids are others
            srcs.append(srcs[-1] + [r.choice([1, 2, 7])])
    runs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        builds = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            bd = {'src': r.randrange(len(srcs)), 'prev': r.choice(['none', 'none', 'long', 'short']),
                  'out': r.choice(['o.dic', 'o.dic', 'other place.dic', 'sub/x.dic', 'rel', '../y.dic']), 'caps': {}, 'clock': clock(r),
                  'paths': r.choice(['abs', 'abs', 'rel', 'link', 'dots'])}
            if r.random() < 0.3:
                bd['caps'] = b.gen_caps(r)
                bd['caps'] = {k: [x * 20 if x > 0 else x for x in v] for k, v in bd['caps'].items()}
            if r.random() < 0.25:
                bd['spoil'] = r.choice([['event', int(2 ** r.uniform(0, 14)), r.choice(c.ANY)],
                                        ['fault', b.gen_fault(r, crash=False)]])
            builds.append(bd)
        hs, env = core.kind(r, tier)
        usr = sorted({bd['src'] for bd in builds if srcs[bd['src']][0] == 'world' and srcs[bd['src']][3] >= 0
                      or srcs[bd['src']][0] == 'made' and srcs[bd['src']][2] >= 0})
        cr = None
        if usr and r.random() < 0.6:            # the installed system dictionary is the one of this source
            cr = r.choice(usr)
        for bd in builds:
            if bd['src'] == cr and r.random() < 0.7:
                bd['nosys'] = 1
            if bd['out'] == 'rel' and r.random() < 0.5:
                bd['out'] = 'default'
        opens = []
        while r.random() < 0.35 and len(opens) < 3:
            x = opening.gen_open(r, 3)
            if cr is None or not x[3].startswith('type'):
                opens.append([r.randrange(len(builds)), x, r.choice(['keep', 'keep', 'drop', 'close'])])
        runs.append({'core': cr, 'opens': opens, 'hash': hs, 'env': env, 'junk': r.randrange(4), 'gc': r.random() < 0.3,
                     'umask': r.choice([0o022, 0o077, 0]), 'builds': builds})
    return {'srcs': srcs, 'runs': runs, 'parts': [r.choice([1, 1, 2, 3, 6]) for _ in srcs]}


def clock(r):
    t = r.choice([b.T0, 0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 33, 9 * 10 ** 9, r.randrange(2 ** 33)])
    out = [t + r.choice([0, 0.5, 0.999999])]
    for _ in range(r.choice([0, 0, 1, 3])):
        out.append(max(0, out[-1] + r.choice([1, -1, 3600, -3600, -10 ** 8, 0.25, 10 ** 8, 0])))
    return out


def source(ctx, src):
    """{file name: text}, main lexicon, whether a user dictionary, description; a last number is how many words come first"""
    n = 4 if src[0] == 'world' else 3
    if len(src) > n:
        files, lex, user, desc = source(ctx, src[:n])
        first = next(csv.reader(io.StringIO(files[lex])))
        pre = ''.join('%s,-1,-1,0,%s,%s,マエ,%s,*,A,*,*,*,*\n' % (w, w, ','.join(first[5:11]), w) for w in ('前%d' % i for i in range(src[n])))
        return dict(files, **{lex: pre + files[lex]}), lex, user, desc
    if src[0] == 'world':
        w = ctx.world(*src[1:3])
        sp = w.spec
        if src[3] < 0:
            return {'lex.csv': sp.files['lex.csv'], 'matrix.def': sp.files['matrix.def']}, 'lex.csv', False, sp.desc
        u = sp.users[src[3]]
        return {u: sp.files[u], 'system.dic': b.read(os.path.join(w.dir, 'system.dic'))}, u, True, sp.desc
    m = c07.make(src[1])
    mt = m.matrix_text + ('\n# 説明 行列\n' if src[1]['seed'] % 2 else '')
    if src[2] < 0:
        return {'lex.csv': m.csv[0], 'matrix.def': mt}, 'lex.csv', False, m.desc
    k = ('madesys', dump.digest(src))
    if k not in ctx.cache:
        ctx.cache[k] = plain(ctx, ({'lex.csv': m.csv[0], 'matrix.def': mt}, 'lex.csv', False, m.desc), 1)
    return {'user.csv': m.csv[1], 'system.dic': ctx.cache[k]}, 'user.csv', True, m.desc


def parted(s, k):
    """the lexicon in k files"""
    files, lex, user, desc = s
    files = dict(files)
    names = []
    for i, x in enumerate(b.split_rows(files.pop(lex), k)):
        names.append(lex if not i else '%d%s' % (i, lex))
        files[names[-1]] = x
    return files, names, user, desc


def put(files, d):
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('utf-8'))


def argv(s, d, out, nosys=False):
    files, lex, user, desc = s
    o = ['-o', out] if out else []
    if desc or out:
        o += ['-d', desc]
    if user:
        return ['ubuild'] + o + ([] if nosys else ['-s', d + '/system.dic']) + [d + '/' + x for x in lex]
    return ['build'] + o + ['-m', d + '/matrix.def'] + [d + '/' + x for x in lex]


def plain(ctx, s, k):
    s = parted(s, k)
    d = ctx.tmp('plain')
    try:
        put(s[0], d)
        out = d + '/out.dic'
        r = ctx.fork(b.cli_child, argv(s, d, out), [d + '/'])
        if r[0] != 'ok' or r[1]['exit'] != 0:
            raise core.HarnessError('reference build: %r' % (r,))
        return b.read(out)
    finally:
        ctx.rmtree(d)


def execute(run, srcs, d, kws, pk, reqs):
    """in a child of some interpreter: the builds of one process; [[exit, err, bytes, clock readings, fired]]"""
    os.umask(run['umask'])
    junk = [object() for _ in range(1000 * run['junk'])] + [bytearray(97 * run['junk'] + 1) for _ in range(50 * run['junk'])]
    if run['gc']:
        gc.enable()
        gc.set_threshold(50)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    res = []
    if run.get('core') is not None:
        pk = d + '/packages'
        os.makedirs(pk + '/sudachidict_core/resources')
        open(pk + '/sudachidict_core/__init__.py', 'w').close()
        put({'system.dic': srcs[run['core']][0]['system.dic']}, pk + '/sudachidict_core/resources')
    sys.path.insert(0, pk)
    kept = []
    for i, bd in enumerate(run['builds']):
        s = srcs[bd['src']]
        for (k, _, how), kw, text in zip(run.get('opens', ()), kws, reqs):
            if k == i:
                x, _ = opening.do_open(kw)
                if x is not None:
                    dump.tok(x.create(), text, 'C')
                    if how == 'close':
                        x.close()
                    elif how == 'keep':
                        kept.append(x)
                x = None
        dd = '%s/b%d' % (d, i)
        os.makedirs(dd + '/w/sub')
        put(s[0], dd + '/src')
        os.chdir(dd + '/w')
        sd = dd + '/src'
        if bd['paths'] == 'rel':
            sd = '../src'
        elif bd['paths'] == 'link':
            os.symlink(dd + '/src', dd + '/ln')
            sd = dd + '/ln'
        elif bd['paths'] == 'dots':
            sd = dd + '/w/./sub/../../src'
        arg = out = 'r.dic' if bd['out'] == 'rel' else dd + '/w/' + bd['out']
        if bd['out'] == 'default':
            arg, out = None, 'user.dic' if s[2] else 'system.dic'
            if s[3]:
                arg = out
        if bd['prev'] != 'none':
            with open(out, 'wb') as f:
                f.write(b'\xee' * (300000 if bd['prev'] == 'long' else 10))
        shim.reset()
        shim.prefix(dd + '/')
        sp = bd.get('spoil')
        tr = None
        if sp and sp[0] == 'fault':
            b.arm([sp[1]])
        elif sp:
            tr = sched.Tracer(sp[1], c.EXC[sp[2]])
        b.set_caps(bd['caps'])
        shim.clock_clear()
        for v in bd['clock']:
            shim.clock(int(v * 10 ** 9))
        code, err = 0, ''
        shim.start()
        try:
            if tr:
                with tr:
                    worlds.cli(argv(s, sd, arg, bd.get('nosys')))
            else:
                worlds.cli(argv(s, sd, arg, bd.get('nosys')))
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            e = None
        except BaseException as e:
            code, err = 1, '%s: %s' % (type(e).__name__, e)
            e.__traceback__ = None
        n = shim.clock_reads()
        gc.collect()
        shim.stop()
        spoiled = bool(tr and tr.fired) or any('error' in k for k in shim.fired_counts())
        reads = [(bd['clock'][min(k, len(bd['clock']) - 1)]) for k in range(n)]
        res.append([code, err, b.read(out), reads, shim.fired_counts(), spoiled])
    del junk
    return res


def run(case, ctx):
    srcs = [source(ctx, s) for s in case['srcs']]
    refs = []
    parts = case.get('parts') or [1] * len(srcs)
    for k, s, p in zip(case['srcs'], srcs, parts):
        key = ('c08ref', dump.digest([k, p]))
        if key not in ctx.cache:
            ctx.cache[key] = plain(ctx, s, p)
        refs.append(ctx.cache[key])
    srcs = [parted(s, p) for s, p in zip(srcs, parts)]
    st, log = {}, []
    n = 0
    d = ctx.tmp()
    try:
        for i, rn in enumerate(case['runs']):
            os_ = [x[1] for x in rn.get('opens', ())]
            r = ctx.elsewhere(rn['hash'], rn['env'], execute, rn, srcs, '%s/r%d' % (d, i), [opening.kwargs(ctx, x) for x in os_],
                              ctx.packages(), [opening.texts(x)[0] for x in os_])
            if os_:
                st['fault dictionaries opened before the build'] = st.get('fault dictionaries opened before the build', 0) + len(os_)
            if c.killed(r, rn):
                st['interpreter killed by a failing allocation'] = 1
                continue
            if r[0] != 'ok':
                return {'viol': {'class': 'the builds end: ' + str(r[0]), 'msg': repr(r)[:3000]}, 'stats': st}
            c_ = 'fault hash seed %s' % rn['hash']
            st[c_] = st.get(c_, 0) + 1
            st['fault environment ' + rn['env']] = st.get('fault environment ' + rn['env'], 0) + 1
            for j, (bd, (code, err, got, reads, fired, spoiled)) in enumerate(zip(rn['builds'], r[1])):
                n += 1
                b.add_fired(st, fired, [bd['spoil'][1]] if bd.get('spoil', [''])[0] == 'fault' else [])
                if len(bd['clock']) > 1:
                    st['fault clock jumps'] = st.get('fault clock jumps', 0) + 1
                if j:
                    st['fault earlier builds in the process'] = st.get('fault earlier builds in the process', 0) + 1
                where = 'process %d (hash seed %s, environment %s), build %d of source %d' % (i, rn['hash'], rn['env'], j, bd['src'])
                log.append([code, spoiled, dump.digest(repr(got))])
                if code != 0:
                    if spoiled:
                        st['builds spoiled on purpose'] = st.get('builds spoiled on purpose', 0) + 1
                        continue
                    return {'viol': {'class': 'the build fails here and works elsewhere', 'msg': '%s: %s' % (where, err)}, 'stats': st}
                ref = refs[bd['src']]
                if got is None:
                    return {'viol': {'class': 'no output', 'msg': where}, 'stats': st}
                if got[:8] + got[16:] != ref[:8] + ref[16:]:
                    a, x = got[:8] + bytes(8) + got[16:], ref[:8] + bytes(8) + ref[16:]
                    return {'viol': {'class': 'other bytes', 'msg': '%s: %d bytes, elsewhere %d; first difference at %s' % (
                        where, len(a), len(x), next((q for q in range(min(len(a), len(x))) if a[q] != x[q]), 'the end'))}, 'stats': st}
                t = struct.unpack('<Q', got[8:16])[0]
                if not any(abs(t - v) < 1 for v in reads):
                    return {'viol': {'class': 'creation time', 'msg': '%s: holds %d, the clock said %s' % (where, t, reads)}, 'stats': st}
    finally:
        ctx.rmtree(d)
    return {'stats': st, 'evals': n, 'nontrivial': n > 0, 'sig': dump.digest(case), 'log': dump.digest(log)}


def shrink(case):
    if set(case.get('parts', [1])) != {1}:
        yield dict(case, parts=[1] * len(case['srcs']))
    for x in c.drop_chunks(case['runs']):
        if x:
            yield dict(case, runs=x)
    for i, rn in enumerate(case['runs']):
        def put_(rn2):
            return dict(case, runs=case['runs'][:i] + [rn2] + case['runs'][i + 1:])
        for x in c.drop_chunks(rn['builds']):
            if x:
                yield put_(dict(rn, builds=x))
        if rn.get('opens'):
            yield put_(dict(rn, opens=rn['opens'][1:]))
        for k, v in (('hash', 0), ('env', 'utf8'), ('junk', 0), ('gc', False), ('umask', 0o022)):
            if rn[k] != v:
                yield put_(dict(rn, **{k: v}))
        for j, bd in enumerate(rn['builds']):
            for k, v in (('nosys', 0), ('caps', {}), ('prev', 'none'), ('out', 'o.dic'), ('paths', 'abs'), ('clock', [b.T0]), ('spoil', None)):
                if k in bd and bd[k] != v:
                    bd2 = dict(bd, **{k: v})
                    if bd2.get('spoil', 1) is None:
                        del bd2['spoil']
                    yield put_(dict(rn, builds=rn['builds'][:j] + [bd2] + rn['builds'][j + 1:]))
    for i, s in enumerate(case['srcs']):
        if s[0] == 'world' and s != ['world', 'tiny', 0, -1]:
            yield dict(case, srcs=case['srcs'][:i] + [['world', 'tiny', 0, -1]] + case['srcs'][i + 1:])
        if len(s) > (4 if s[0] == 'world' else 3):
            yield dict(case, srcs=case['srcs'][:i] + [s[:-1]] + case['srcs'][i + 1:])
        if s[0] == 'made':
            for f in c.drop_chunks(s[1]['feats']):
                yield dict(case, srcs=case['srcs'][:i] + [['made', dict(s[1], feats=f)] + s[2:]] + case['srcs'][i + 1:])
