"""C14: a truncated dictionary is never used silently."""
import copy
import os
import struct
import sys

from simkit import core, dump, worlds
from . import building as b, common as c, opening as o
from .c01 import _first_diff

POOL = ['std', 'std', 'ties', 'tiny', 'nouser', 'users']
SECTIONS = ['header', 'parts of speech', 'connection matrix', 'trie', 'word id table', 'word parameters', 'word info offsets', 'word infos']


def bounds(data):
    """start offsets of the sections, from the format description; the last one is the end"""
    p = 272
    out = [0, p]
    version, = struct.unpack_from('<Q', data)
    if version in (0x7366d3f18bd111e7, 0xce9f011a92394434, 0xca9811756ff64fb0, 0x9fdeb5a90168d868):
        n, = struct.unpack_from('<H', data, p)
        p += 2
        for _ in range(6 * n):
            k = data[p]
            p += 1
            if k >= 128:
                k = (k & 127) << 8 | data[p]
                p += 1
            p += 2 * k
        out.append(p)
        left, right = struct.unpack_from('<HH', data, p)
        p += 4 + 2 * left * right
    else:
        out.append(p)
    out.append(p)
    for unit in (4, 1, 6):
        n, = struct.unpack_from('<I', data, p)
        p += 4 + unit * n
        out.append(p)
    out.append(p + 4 * n)
    out.append(len(data))
    return out


def gen_cut(r):
    x = r.random()
    if x < 0.4:
        return ['at', r.getrandbits(40)]
    if x < 0.6:
        return ['section', r.randrange(1, 9), r.choice([-9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 9])]
    if x < 0.85:
        return ['in', r.randrange(8), r.getrandbits(30)]
    return ['section', 8, -r.choice([1, 1, 2, 3, 4, 6, 8, 10, 20, 50])]


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 40
    p, s = c.pick_world(r, POOL, nw)
    w = c.spec(p, s)
    nf = 1 + len(w.users)
    runs = []
    for _ in range(r.choice([2, 4, 8])):
        files = [[r.randrange(nf) if r.random() < 0.5 else 0] + gen_cut(r)]
        if r.random() < 0.1 and nf > 1:
            files.append([r.randrange(nf)] + gen_cut(r))
        reqs = [[c.text(r, w), r.choice('ABC')] for _ in range(r.choice([1, 3, 6]))]
        sw = c.sweep_texts(w)
        if r.random() < 0.5:
            reqs += [[t, r.choice('ABC')] for t in r.sample(sw, min(len(sw), 3))]
        if files[0][0] == 0 and r.random() < 0.5:
            reqs += [[t, 'C'] for t in w.heads[-2:]]
        runs.append({'files': files, 'reqs': reqs, 'ubuild': r.random() < 0.2 and nf > 1, 'twice': r.random() < 0.3})
    return {'world': [p, s], 'variant': r.choice([0, 0, 1, 2, 4, 5, 7]), 'runs': runs}


def cut_at(data, how):
    bs = bounds(data)
    if how[0] == 'at':
        n = how[1] % len(data)
    elif how[0] == 'section':
        n = bs[how[1]] + how[2]
    else:
        lo, hi = bs[how[1]], bs[how[1] + 1]
        n = lo + how[2] % max(1, hi - lo)
    n = max(0, min(n, len(data) - 1))
    return n, SECTIONS[max(i for i in range(8) if bs[i] <= n)]


def use(kw, reqs, want, twice):
    """in a forked child; answers are those of the intact dictionary, or exceptions"""
    st, log = {}, []

    def count(k):
        st[k] = st.get(k, 0) + 1
    for k in range(2 if twice else 1):
        d, err = o.do_open(kw)
        log.append(err)
        if err:
            count('opening refused')
            continue
        count('opened')
        t = d.create()
        for text, mode in reqs:
            ref = want[(text, mode)]
            got = dump.tok(t, text, mode)
            log.append(dump.digest(got))
            if got[0] == 'ok' and got != ref:
                return {'viol': {'class': 'the answer differs', 'msg': '%r mode %s\nintact: %.1500s\ntruncated: %.1500s' % (
                    text, mode, _first_diff(ref, got), _first_diff(got, ref))}}
            count('answers as of the intact one' if got[0] == 'ok' else 'answers refused')
    return {'stats': st, 'log': log}


def ubuild(argv):
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    worlds.cli(argv)


def run(case, ctx):
    w = ctx.world(*case['world'])
    want = ctx.fresh_many(w, [tuple(q) for r in case['runs'] for q in r['reqs']],
                          __import__('json').dumps(w.variant(case['variant'])))
    kw = w.variant(case['variant'])
    st, logs, sig = {}, [], []
    n = 0
    d = ctx.tmp()
    try:
        w2 = copy.copy(w)
        w2.dir = d + '/dic'
        os.makedirs(w2.dir)
        for f in os.listdir(w.dir):
            if os.path.isfile(os.path.join(w.dir, f)):
                os.link(os.path.join(w.dir, f), os.path.join(w2.dir, f))
        kw2 = {k: v.replace(w.dir, w2.dir) for k, v in kw.items()}
        names = w.dicts()
        for k, r in enumerate(case['runs']):
            where = []
            cut = {}
            for fi, *how in r['files']:
                name = names[fi % len(names)]
                data = b.read(os.path.join(w.dir, name))
                m, sec = cut_at(data, how)
                cut[name] = data[:m]
                where.append('%s cut to %d of %d bytes (in the %s)' % (name, m, len(data), sec))
                key = 'fault file cut in its ' + sec
                st[key] = st.get(key, 0) + 1
            for name, x in cut.items():
                p = os.path.join(w2.dir, name)
                os.unlink(p)
                with open(p, 'wb') as f:
                    f.write(x)
            res = ctx.fork(use, kw2, r['reqs'], want, r['twice'])
            n += 1
            if res[0] != 'ok':
                v = {'class': 'the process ends: %s' % res[0] if res[0] != 'exc' else 'the workload raises ' + res[1], 'msg': repr(res)}
            else:
                v = res[1].get('viol')
                for a, x in res[1].get('stats', {}).items():
                    st[a] = st.get(a, 0) + x
                logs.append(res[1].get('log'))
            if v is None and r['ubuild'] and len(names) > 1 and 'system.dic' in cut:
                u = w.spec.users[0]
                out = d + '/u.dic'
                res = ctx.fork(ubuild, ['ubuild', '-o', out, '-s', w2.dir + '/system.dic', '-d', w.spec.desc, w.dir + '/' + u])
                n += 1
                if res[0] not in ('ok', 'exc'):
                    v = {'class': 'ubuild ends: %s' % res[0], 'msg': repr(res)}
                elif res[0] == 'ok':
                    x, y = b.read(out), b.read(os.path.join(w.dir, names[1]))
                    st['ubuild as with the intact one'] = st.get('ubuild as with the intact one', 0) + 1
                    if x[:8] + x[16:] != y[:8] + y[16:]:
                        v = {'class': 'ubuild uses a truncated dictionary', 'msg': 'its output differs from that with the intact one'}
                else:
                    st['ubuild refused'] = st.get('ubuild refused', 0) + 1
                if os.path.exists(out):
                    os.unlink(out)
            if v:
                v = dict(v, msg='%s; %s' % ('; '.join(where), v['msg']))
                return {'viol': v, 'stats': st}
            for name in cut:
                p = os.path.join(w2.dir, name)
                os.unlink(p)
                os.link(os.path.join(w.dir, name), p)
            sig.append(where)
    finally:
        ctx.rmtree(d)
    return {'stats': st, 'evals': n, 'sig': dump.digest([case['world'], sig]), 'nontrivial': True, 'log': dump.digest([logs, sorted(st.items())])}


def shrink(case):
    for rs in c.drop_chunks(case['runs']):
        if rs:
            yield dict(case, runs=rs)
    if case['variant']:
        yield dict(case, variant=0)
    for i, r in enumerate(case['runs']):
        def put(**kw):
            return dict(case, runs=case['runs'][:i] + [dict(r, **kw)] + case['runs'][i + 1:])
        for f in c.drop_chunks(r['files']):
            if f:
                yield put(files=f)
        for q in c.drop_chunks(r['reqs']):
            yield put(reqs=q)
        if r['ubuild']:
            yield put(ubuild=False)
        if r['twice']:
            yield put(twice=False)
        for j, q in enumerate(r['reqs']):
            for t in c.shorter_texts(q[0]):
                yield put(reqs=r['reqs'][:j] + [[t, q[1]]] + r['reqs'][j + 1:])
