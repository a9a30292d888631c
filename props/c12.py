"""C12: using dictionaries never changes their files."""
import copy
import gc
import hashlib
import os
import shutil
import sys

from simkit import core, dump, sched, shim, worlds
from . import building as b, common as c, opening as o
from .c01 import _first_diff, finish

CHANGES = {shim.WRITE, shim.RENAME, shim.UNLINK, shim.TRUNC, shim.LINK, shim.META}


def gen(r, tier, idx):
    nw = 5 if tier == 'quick' else 30
    opens = []
    while len(opens) < r.choice([1, 2, 3]):
        x = o.gen_open(r, nw, invalid=0.15)
        if not x[3].startswith('type'):
            opens.append(x)
    ops, slots = [], {}
    for _ in range(r.choice([3, 6, 12, 20])):
        x = r.random()
        if x < 0.3 or not slots:
            i = r.randrange(len(opens))
            s = r.randrange(4)
            ops.append(['open', s, i])
            slots[s] = i
        elif x < 0.42:
            f = b.gen_fault(r, crash=False, kinds=['open', 'read', 'mmap', 'close', 'any'], span=r.choice([3, 10, 40]), signal=True)
            if r.random() < 0.4:
                f, _ = b.aim(r, o.targets(c.spec(*opens[0][:2])), kinds=('open', 'read', 'mmap', 'close'), signal=True)
            ops.append(['xopen', r.randrange(len(opens)), int(2 ** r.uniform(0, 13)), r.choice(c.ANY)] if r.random() < 0.5 else
                       ['fopen', r.randrange(len(opens)), f])
        elif x < 0.8:
            s = r.choice(sorted(slots))
            op = ['use', s, c.text(r, c.spec(*opens[slots[s]][:2])), r.choice('ABC')]
            if r.random() < 0.15:
                op = ['x'] + op[1:] + [int(2 ** r.uniform(0, 11)), r.choice(c.ANY)]
            ops.append(op)
        elif x < 0.86:
            ops.append([r.choice(['close', 'drop']), r.choice(sorted(slots))])
        elif x < 0.9:
            ops.append(['gc'])
        elif x < 0.94:
            ops.append(['fork', r.randrange(len(opens)), c.text(r, c.spec(*opens[0][:2])), r.choice(['end', 'crash'])])
        elif x < 0.97:
            ops.append(['cli', r.randrange(len(opens)), [c.text(r, c.spec(*opens[0][:2])) for _ in range(3)]])
        else:
            ops.append(['ubuild', r.randrange(len(opens))])
    for i in range(len(opens)):
        if r.random() < 0.7:
            ops += [['open', i, i], ['use', i, c.text(r, c.spec(*opens[i][:2])), 'C']]
    return {'opens': opens, 'ops': ops, 'readonly': r.random() < 0.6}


def place(ctx, x, d):
    """(world of a private copy, keyword arguments)"""
    w = ctx.world(*x[:2])
    w2 = copy.copy(w)
    w2.dir = os.path.join(d, '%s-%s' % (x[0], x[1]))
    if not os.path.exists(w2.dir):
        w.variant(0)
        shutil.copytree(w.dir, w2.dir)
    w2.config = os.path.join(w2.dir, 'sudachi.json')
    return w2, w2.variant(x[2], x[3])


def picture(d):
    out = {}
    for dp, dns, fns in os.walk(d):
        for n in sorted(dns + fns):
            p = os.path.join(dp, n)
            s = os.lstat(p)
            h = ''
            if n in fns:
                with open(p, 'rb') as f:
                    h = hashlib.sha256(f.read()).hexdigest()[:16]
            out[os.path.relpath(p, d)] = [h, s.st_size, s.st_mode, s.st_mtime_ns, s.st_ino, s.st_nlink]
    return out


def record(readonly):
    shim.reset()
    shim.prefix('/')
    shim.readonly(1 if readonly else 0)
    shim.start()


def changes(allow=None):
    """operations that change something, outside the allowed directory"""
    bad = []
    for q in shim.ops():
        if q.name and (q.name.startswith(('/dev/null', '/proc/')) or allow and q.name.startswith(allow)):
            continue
        if q.kind in CHANGES or q.kind == shim.OPEN and q.req & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            bad.append(repr(q))
    return bad


def forked(kw, text, end):
    from sudachipy.dictionary import Dictionary
    record(False)
    try:
        d = Dictionary(**kw)
        dump.tok(d.create(), text, 'C')
    except Exception:
        pass
    shim.stop()
    bad = changes()
    if end == 'crash' and not bad:
        os._exit(9)
    return bad


def command(argv, out):
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    record(False)
    try:
        worlds.cli(argv)
    except SystemExit:
        pass
    except Exception:
        pass
    shim.stop()
    return changes(out)


def execute(case, kws, dirs, users, want, d, pk):
    sys.path.insert(0, pk)
    os.makedirs(d + '/cwd', exist_ok=True)
    os.makedirs(d + '/out', exist_ok=True)
    os.chdir(d + '/cwd')
    slots = {}
    st, log, bad = {}, [], []
    n = 0

    def count(k):
        st[k] = st.get(k, 0) + 1

    def viol(cls, msg):
        shim.stop()
        return {'viol': {'class': cls, 'msg': msg.replace(d, '')}, 'stats': st}
    record(case['readonly'])
    for i, op in enumerate(case['ops']):
        k = op[0]
        if k == 'open':
            slots.pop(op[1], None)
            dic, err = o.do_open(kws[op[2]])
            ref = want[op[2]][('', 'C')]
            n += 1
            log.append(err)
            alone = ref[1] if ref[0] == 'noopen' else None
            if (err is None) != (alone is None):
                return viol('opening differs', 'operation %d: opening %r first: %s; now: %s; %s' % (
                    i, case['opens'][op[2]], alone or 'works', err or 'works', 'read-only files' if case['readonly'] else ''))
            if err:
                count('fault opening that must fail')
            else:
                slots[op[1]] = [dic, op[2], dic.create()]
        elif k in ('xopen', 'fopen'):
            from sudachipy.dictionary import Dictionary
            shim.stop()
            bad += changes()
            shim.reset()
            shim.prefix('/')
            if k == 'fopen':
                b.arm([op[2]])
            shim.readonly(1 if case['readonly'] else 0)
            shim.start()
            tr = None
            try:
                if k == 'xopen':
                    with sched.Tracer(op[2], c.EXC[op[3]]) as tr:
                        Dictionary(**kws[op[1]])
                else:
                    b.attempt(lambda: Dictionary(**kws[op[1]]))
            except BaseException:
                pass
            if tr and tr.fired:
                count('fault %s inside an opening' % op[3])
            if k == 'fopen':
                shim.stop()
                bad += changes()
                b.add_fired(st, shim.fired_counts(), [op[2]])
                record(case['readonly'])
        elif k in ('use', 'x'):
            if op[1] not in slots:
                continue
            dic, oi, tk = slots[op[1]]
            if k == 'x':
                try:
                    with sched.Tracer(op[4], c.EXC[op[5]]) as tr:
                        dump.tok(tk, op[2], op[3])
                except BaseException:
                    pass
                if tr.fired:
                    count('fault %s inside a call' % op[5])
                continue
            ref = want[oi].get((op[2], op[3]))
            if ref is None:
                continue
            got = dump.tok(tk, op[2], op[3])
            n += 1
            log.append(dump.digest(got))
            if got != ref if ref[0] == 'ok' or got[0] == 'ok' else got[0] != ref[0]:
                return viol('the answer differs', 'operation %d %r on %r\nfirst: %.1500s\nnow: %.1500s' % (
                    i, op, case['opens'][oi], _first_diff(ref, got), _first_diff(got, ref)))
        elif k in ('close', 'drop'):
            s = slots.pop(op[1], None)
            if s and k == 'close':
                try:
                    s[0].close()
                    count('closes')
                except Exception:
                    count('closes that raised')
        elif k == 'gc':
            gc.collect()
        else:
            shim.stop()
            bad += changes()
            if k == 'fork':
                r = core.fork(forked, kws[op[1]], op[2], op[3])
                count('fault process ended without closing' if op[3] == 'crash' else 'processes')
            elif k == 'cli':
                with open(d + '/out/in.txt', 'w', encoding='utf-8') as f:
                    f.write(''.join(t.replace('\n', '') + '\n' for t in op[2]))
                r = core.fork(command, ['tokenize', '-r', kws[op[1]]['config_path'], '-o', d + '/out/o.txt', d + '/out/in.txt'], d + '/out/')
                count('command line')
            else:
                u = users[op[1]]
                if u:
                    r = core.fork(command, ['ubuild', '-o', d + '/out/u.dic', '-s', dirs[op[1]] + '/system.dic', dirs[op[1]] + '/' + u], d + '/out')
                    count('command line')
                else:
                    r = ('ok', [])
            if r[0] == 'ok':
                bad += r[1]
            record(case['readonly'])
    slots.clear()
    gc.collect()
    shim.stop()
    bad += changes()
    if bad:
        return viol('a file is written', '; '.join(bad[:4]))
    if shim.fired_counts().get('read-only refusal'):
        return viol('write access is asked for', repr(shim.fired_counts()))
    if case['readonly']:
        count('fault read-only file system')
    return {'stats': st, 'sig': dump.digest([case['opens'], case['ops']]), 'nontrivial': n > 0,
            'log': dump.digest([log, sorted(st.items())]), 'evals': max(1, n)}


def run(case, ctx):
    need = {i: [('', 'C')] for i in range(len(case['opens']))}
    slots = {}
    for op in case['ops']:
        if op[0] == 'open':
            slots[op[1]] = op[2]
        elif op[0] == 'use' and op[1] in slots:
            need[slots[op[1]]].append((op[2], op[3]))
    want = [o.oracle(ctx, x, need[i]) for i, x in enumerate(case['opens'])]
    d = ctx.tmp()
    try:
        ps = [place(ctx, x, d + '/dics') for x in case['opens']]
        dirs = [w.dir for w, _ in ps]
        users = [w.spec.users[0] if w.spec.users else None for w, _ in ps]
        before = picture(d + '/dics')
        res = finish(ctx.fork(execute, case, [k for _, k in ps], dirs, users, want, d, ctx.packages()), case)
        after = picture(d + '/dics')
        if not res.get('viol') and after != before:
            ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            res = {'viol': {'class': 'a file has changed', 'msg': '; '.join('%s: %s -> %s' % (k, before.get(k), after.get(k)) for k in ch[:5])},
                   'stats': res.get('stats', {})}
        left = os.listdir(d + '/cwd') if os.path.exists(d + '/cwd') else []
        if not res.get('viol') and left:
            res = {'viol': {'class': 'a file is left', 'msg': repr(left)}, 'stats': res.get('stats', {})}
        return res
    finally:
        ctx.rmtree(d)


def shrink(case):
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    if case['readonly']:
        yield dict(case, readonly=False)
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain']):
            if x != y:
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    for i, op in enumerate(case['ops']):
        if op[0] == 'use':
            for t in c.shorter_texts(op[2]):
                yield dict(case, ops=case['ops'][:i] + [op[:2] + [t] + op[3:]] + case['ops'][i + 1:])
