"""C06: a dictionary build replaces its output all-or-nothing."""
import functools
import os
import random
import shutil
import sys

from simkit import core, dump, shim
from . import building as b, common as c

POOL = ['std', 'std', 'tiny', 'ties', 'nouser', 'std', 'big']


def gen(r, tier, idx):
    w = c.pick_world(r, POOL, 3 if tier == 'quick' else 12)
    s = c.spec(*w)
    kind = r.choice(['build', 'build', 'ubuild']) if s.users else 'build'
    case = {'world': w, 'nosys': kind == 'ubuild' and r.random() < 0.25, 'kind': kind, 'user': r.randrange(max(1, len(s.users))), 'parts': r.choice([1, 1, 2, 3]),
            'prev': r.choice(['none', 'old', 'old', 'old', 'long', 'same', 'link', 'garbage']),
            'bad': r.choice(b.BAD) if r.random() < 0.25 else None, 'at': r.randrange(200),
            'out': r.choice(['out.dic', 'out.dic', 'a b.dic', 'sub/x.dic', 'rel', 'default', 'ln/x.dic']),
            'plan': [], 'caps': {}, 'event': None, 'exc': None, 'power': None}
    x = r.random()
    if kind == 'ubuild' and r.random() < 0.1:
        case['prev'] = 'system'         # the output is the system dictionary that is read
    if x < 0.5:
        if r.random() < 0.3:
            f, case['caps'] = b.aim(r, ['/src0.csv', '/src0.csv', '/src1.csv', '/matrix.def', '/system.dic', '.tmp', '.dic', '.dic'], True,
                                    ('open', 'read', 'read', 'write', 'write', 'mmap', 'close', 'stat', 'fsync', 'rename', 'meta'), True)
            case['plan'] = [f]
        else:
            case['plan'] = [b.gen_fault(r, signal=True)]
        if r.random() < 0.25:
            case['plan'].append(b.gen_fault(r))
    elif x < 0.72:
        case['event'] = int(2 ** r.uniform(0, 14))
        case['exc'] = r.choice(c.ANY)
        if r.random() < 0.2:
            case['plan'] = [b.gen_fault(r, kinds=['unlink', 'close', 'rename', 'fsync'])]
    if r.random() < 0.25 and not case['caps']:
        case['caps'] = b.gen_caps(r)
    if not any('crash' in f[3] for f in case['plan']) and r.random() < 0.5:
        case['power'] = r.getrandbits(30)
    return case


def reference(ctx, case, w):
    """the complete new dictionary, built without faults; None when the sources are bad"""
    k = ('ref', w.key, case['kind'], case['user'], case['bad'], case['at'] if case['bad'] else 0, case['parts'] if case['bad'] else 0)
    if k not in ctx.cache:
        d = ctx.tmp('ref')
        try:
            files, m = b.write_sources(d, w.spec, what(case, w), case['bad'], case['parts'] if case['bad'] else 1, case['at'])
            out = os.path.join(d, 'ref.dic')
            r = ctx.fork(b.cli_child, b.argv_for(case['kind'], w, files, m, out, w.spec.desc), [d + '/'])
            if r[0] != 'ok':
                raise core.HarnessError('reference build: %r' % (r,))
            ctx.cache[k] = b.read(out) if r[1]['exit'] == 0 else None
        finally:
            ctx.rmtree(d)
    return ctx.cache[k]


def what(case, w):
    return 'lex.csv' if case['kind'] == 'build' else w.spec.users[case['user'] % len(w.spec.users)]


def old_content(case, w, new):
    p = case['prev']
    if p == 'none':
        return None
    if p == 'same':
        return new or b'x'
    if p == 'garbage':
        return b'not a dictionary'
    if p == 'long':
        return random.Random(3).randbytes(300000)
    if p == 'system':
        return b.read(os.path.join(w.dir, 'system.dic'))
    return b.read(os.path.join(w.dir, 'system.dic'))[:-1] + b'\x01'


def run(case, ctx):
    w = ctx.world(*case['world'])
    new = reference(ctx, case, w)
    d = ctx.tmp()
    try:
        return judge(case, ctx, w, new, d)
    finally:
        ctx.rmtree(d)


def enter(cwd, path):
    if cwd:
        os.chdir(cwd)
    if path:
        sys.path.insert(0, path)


def judge(case, ctx, w, new, d):
    src, outd = d + '/src', d + '/out'
    os.makedirs(src)
    os.makedirs(outd + '/sub')
    files, m = b.write_sources(src, w.spec, what(case, w), case['bad'], case['parts'], case['at'])
    name = {'rel': 'r.dic', 'default': 'system.dic' if case['kind'] == 'build' else 'user.dic'}.get(case['out'], case['out'])
    out = os.path.join(outd, name)
    old = old_content(case, w, new)
    target = out
    os.symlink(outd + '/sub', outd + '/ln')
    if case['prev'] == 'link':
        target = os.path.join(outd, 'real.dic')
        os.symlink('real.dic' if '/' not in name else '../real.dic', out)
    if old is not None:
        with open(target, 'wb') as f:
            f.write(old)
    arg = out
    cd = case['out'] in ('rel', 'default')
    if cd:
        arg = name
    argv = b.argv_for(case['kind'], w, files, m, arg, w.spec.desc, system=out if case['prev'] == 'system' else None)
    if case['out'] == 'default':
        argv = argv[:1] + argv[3:]
    pk = None
    if case.get('nosys') and case['prev'] != 'system':
        k = argv.index('-s')
        pk = d + '/pk'
        os.makedirs(pk + '/sudachidict_core/resources')
        open(pk + '/sudachidict_core/__init__.py', 'w').close()
        shutil.copy(argv[k + 1], pk + '/sudachidict_core/resources/system.dic')
        del argv[k:k + 2]
    r = ctx.fork(b.cli_child, argv, [d + '/', w.dir + '/'], case['plan'], case['caps'], case['event'], case['exc'],
                 want_ops=case['power'] is not None, before=functools.partial(enter, outd if cd else None, pk))
    st, msg, cls = {}, None, None
    got = b.read(out)
    crashed = r[0] == 'exit' and r[1] == 137
    if c.killed(r, case):
        crashed, code = True, None
        st['fault interpreter killed by a failing allocation'] = 1
    elif crashed:
        ks = ['%s %s' % (f[0], f[3]) for f in case['plan'] if 'crash' in f[3]]
        st['fault process killed: ' + (ks[0] if len(ks) == 1 else 'one of two places')] = 1
        code = None
    elif r[0] != 'ok':
        return {'viol': {'class': 'the command ends: ' + str(r[0]), 'msg': repr(r)}, 'stats': st}
    else:
        code = r[1]['exit']
        b.add_fired(st, r[1]['fired'], case['plan'])
        if r[1]['at']:
            st['fault %s in library code' % case['exc']] = 1
    if case['bad']:
        st['fault bad source: ' + case['bad']] = 1
    state = 'absent' if got is None else 'old' if got == old else 'new' if got == new else 'neither'
    if got is None and old is None:
        state = 'old'
    elif got is None:
        state = 'neither (absent)'
    if got is not None and got == new:
        state = 'new'
    ev = 1
    if state.startswith('neither'):
        cls = 'the output is neither the old nor the new one'
        msg = 'output %s bytes, old %s, new %s; first difference to new at %s' % (
            _len(got), _len(old), _len(new), _diff(got, new))
    elif code == 0 and state != 'new':
        cls, msg = 'success without the new dictionary', 'status 0, output: %s' % state
    st['output new' if state == 'new' else 'output old'] = 1
    images = []
    if msg is None and case['power'] is not None and r[0] == 'ok':
        rr = random.Random(case['power'])
        ops = r[1]['ops']
        real = os.path.realpath(out)
        dd = os.path.dirname(real)
        pts = sorted({rr.randrange(len(ops) + 1) for _ in range(10)} | {len(ops)} |
                     {o + x for o in range(len(ops)) if ops[o]['kind'] in (shim.RENAME, shim.FSYNC, shim.UNLINK) for x in (0, 1)})
        for p in pts:
            for desc, img in b.images(ops, dd, {os.path.basename(real): old} if old is not None else {}, rr, p, 4):
                x = img.get(real)
                ev += 1
                st['fault power loss'] = st.get('fault power loss', 0) + 1
                ok = x == new if (p == len(ops) and code == 0) else x == old or (x == new and new is not None)
                images.append(ok)
                if not ok and msg is None:
                    cls = 'power loss leaves neither the old nor the new one' if not (x == old) else 'success is lost with power'
                    msg = 'power lost after %d of %d operations (%s); %s: output %s bytes, old %s, new %s' % (
                        p, len(ops), _op(ops[p - 1], d) if p else '', desc, _len(x), _len(old), _len(new))
        if not ops and code == 0:
            return {'viol': {'class': 'no operation seen', 'msg': ''}, 'stats': st}
    if msg:
        return {'viol': {'class': cls, 'msg': '%s; command: %s; %s; faults fired %s' % (
            msg, case['kind'], ('status %s %s' % (code, r[1]['err'][:200])) if r[0] == 'ok' else 'killed', st)}, 'stats': st}
    n = r[1]['total'] if r[0] == 'ok' else -1
    st['system calls'] = max(n, 0)
    return {'stats': st, 'evals': ev, 'nontrivial': bool(any(k.startswith('fault') for k in st)),
            'sig': dump.digest([case[k] for k in ('world', 'kind', 'bad', 'plan', 'caps', 'event', 'exc', 'prev', 'power')]),
            'log': dump.digest([code, state, n, sorted(st.items()), images])}


def _op(o, d):
    return '%s %s' % (shim.KINDS[o['kind']], (o['name'] or '').replace(d, ''))


def _len(x):
    return 'absent' if x is None else len(x)


def _diff(a, x):
    if a is None or x is None:
        return '-'
    return next((i for i, (p, q) in enumerate(zip(a, x)) if p != q), min(len(a), len(x)))


def shrink(case):
    for p in c.drop_chunks(case['plan']):
        yield dict(case, plan=p)
    for k, v in (('nosys', False), ('caps', {}), ('event', None), ('bad', None), ('power', None), ('parts', 1), ('prev', 'old'), ('out', 'out.dic'),
                 ('prev', 'none')):
        if case.get(k, v) != v:
            yield dict(case, **{k: v})
    if case['world'] != ['tiny', 0] and case['kind'] == 'build':
        yield dict(case, world=['tiny', 0])
    for i, f in enumerate(case['plan']):
        if f[1]:
            for x in (f[1] // 2, f[1] - 1):
                yield dict(case, plan=case['plan'][:i] + [[f[0], x] + f[2:]] + case['plan'][i + 1:])
    if case['event'] and case['event'] > 1:
        for x in (case['event'] // 2, case['event'] - 1):
            yield dict(case, event=x)
