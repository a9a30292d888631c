"""C10: the tokenize command never reports success for lost output."""
import os

from simkit import core, dump, shim
from . import building as b, cliproc as p, common as c, opening as o


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 30
    while True:
        op = o.gen_open(r, nw, invalid=0.05)
        if 'resdir' not in op[3] and op[3] != 'type huge':
            break
    s = c.spec(*op[:2])
    src = r.choice(['stdin', 'stdin', 'files', 'files', 'file'])
    n = {'stdin': 1, 'file': 1}.get(src) or r.choice([2, 3])
    case = {'open': op, 'mode': r.choice('ABC'), 'full': r.random() < 0.5, 'dump': r.random() < 0.05, 'src': 'stdin' if src == 'stdin' else 'files',
            'inputs': [p.gen_input(r, s) for _ in range(n)], 'out': r.choice(['stdout', 'stdout', '-o', '-o']),
            'prev': r.choice([None, None, 'old']), 'enc': r.choice(p.ENC), 'tty': r.random() < 0.1, 'gone': None,
            'plan': [], 'caps': {}, 'event': None, 'exc': None}
    if r.random() < 0.08 and case['src'] == 'files':
        case['gone'] = [r.randrange(n), r.choice(['missing', 'directory'])]
    if case['dump']:
        case['inputs'] = [dict(x, bad=None) for x in case['inputs']]
        case['enc'] = p.ENC[0]
    case['kind'] = p.gen_kind(r)
    case['word'] = r.random() < 0.7         # the name of the subcommand can be omitted
    case['keep'] = r.random() < 0.15        # lines that cannot be analysed
    if case['keep'] and r.random() < 0.5 and not op[3].startswith('type'):
        op[2] = 100
        if r.random() < 0.5:
            return case                     # and no other fault
    x = r.random()
    if x < 0.7:
        case['plan'] = [fault(r)]
        if r.random() < 0.35:
            case['plan'][0], case['caps'] = b.aim(r, ['/in0.txt', '/in0.txt', '/in1.txt', 'stdin', 'stdin', 'stdout', 'stdout', '/out.txt', '/out.txt',
                                                      '.dic', '.def', '.json'], True,
                                                  ('open', 'read', 'read', 'write', 'write', 'mmap', 'close', 'close'), True)
            if case['out'] == '-o' and r.random() < 0.4:      # the last things that can go wrong
                case['plan'] = [['close', 0, -1, 'error', r.choice(['EIO', 'ENOSPC', 'EDQUOT']), 0, '/out.txt']]
        if r.random() < 0.2:
            case['plan'].append(fault(r))
        elif r.random() < 0.1:              # interrupted while it waits for input
            case['plan'] = [['read', r.choice([0, 0, 1, 2, 5]), 1, 'interrupt', int(r.random() < 0.5), 0,
                             'stdin' if case['src'] == 'stdin' else '/in%d.txt' % r.randrange(n)]]
            case['caps'] = {'read': [r.choice([5, 30, 100, 1000])]}
    elif x < 0.85:
        case['event'] = int(2 ** r.uniform(0, 16))
        case['exc'] = r.choice(c.ANY)
    if r.random() < 0.3 and not case['caps']:
        case['caps'] = b.gen_caps(r)
    if r.random() < 0.05:
        case['closed'] = r.choice([['stdin'], ['stdout'], ['stdout'], ['stdin', 'stdout']])
        if r.random() < 0.6:
            case.update(plan=[], event=None, exc=None)
    elif case['src'] == 'stdin' and r.random() < 0.1:
        case['nonblock'] = True
        case['caps'] = dict(case['caps'], read=not_yet(r, case['caps'].get('read') or [r.choice([5, 30, 100, 1000])]))
        if r.random() < 0.5:
            case.update(plan=[], event=None, exc=None)
    return case


def not_yet(r, sizes):
    """there is no input yet at some of the reads"""
    for _ in range(r.choice([1, 1, 2, 4])):
        sizes.insert(r.randrange(len(sizes) + 1), -2)
    return sizes


def fault(r):
    f = b.gen_fault(r, kinds=['write'] * 7 + ['read'] * 3 + ['close', 'close', 'open', 'mmap', 'any'], span=r.choice([3, 10, 40, 300]), signal=True)
    if f[0] == 'write' and f[3] in ('error', 'torn-write-error'):
        f[4] = r.choice(['ENOSPC', 'EIO', 'EPIPE', 'EDQUOT', 'EAGAIN'])
    elif f[0] == 'close' and f[3] == 'error':
        f[4] = r.choice(['EIO', 'ENOSPC'])
    return f


def command(case, kw, d, outp):
    a = ['tokenize'] if case.get('word', True) else []
    if 'config_path' in kw:
        a += ['-r', kw['config_path']]
    if case['mode'] != 'C' or case.get('word', True):
        a += ['-m', case['mode']]
    if 'dict_type' in kw:
        a += ['-s', kw['dict_type']]
    if case['full']:
        a.append('-a')
    if case['dump']:
        a.append('-d')
    if case['out'] == '-o':
        a += ['-o', outp]
    if case['src'] == 'files':
        a += ['%s/in%d.txt' % (d, i) for i in range(len(case['inputs']))]
    return a


def prepare(case, ctx, d):
    """(arguments of cliproc.process, expected bytes, whether they are the complete result)"""
    kw = o.kwargs(ctx, case['open'])
    outp = d + '/out.txt'
    if case['prev']:
        with open(outp, 'wb') as f:
            f.write(b'what was there before\n' * 50)
    inputs = []
    gone = case.get('gone')
    for i, inp in enumerate(case['inputs']):
        if not case['keep']:
            inp = p.analysable(ctx, case['open'], inp, case['mode'])
        enc = case['enc'] if case['src'] == 'stdin' else ['utf-8', 'strict']
        data = p.encode(inp, enc)
        f = '%s/in%d.txt' % (d, i)
        if gone and gone[0] == i:
            if gone[1] == 'directory':
                os.makedirs(f)
                inputs.append(([], False))
                continue
            if gone[1] == 'missing':
                inputs.insert(0, ([], False))       # seen before anything is read
                continue
        with open(f, 'wb') as fh:
            fh.write(data)
        inputs.append(p.lines_of(data, enc, '\n' if case['src'] == 'stdin' else None))
    enc_out = case['enc'] if case['out'] == 'stdout' else ['utf-8', 'strict']
    want, complete = p.expected(ctx, case['open'], inputs, case['mode'], case['full'], enc_out)
    argv = command(case, kw, d, outp)
    return argv, outp, want, complete


def run(case, ctx):
    d = ctx.tmp()
    try:
        return judge(case, ctx, d)
    finally:
        ctx.rmtree(d)


def judge(case, ctx, d):
    argv, outp, want, complete = prepare(case, ctx, d)
    w = ctx.world(*case['open'][:2])
    stdin = d + '/in0.txt' if case['src'] == 'stdin' else None
    stdout = outp if case['out'] == 'stdout' else None
    pk = ctx.packages()
    st = {}
    n = 1
    if case['dump']:        # the dump is whatever a run without faults writes
        r = p.start(ctx, case)(p.process, argv, stdin, stdout, case['enc'], pk)
        if r[0] != 'ok':
            return {'viol': {'class': 'the command ends: ' + str(r[0]), 'msg': repr(r)}, 'stats': st}
        want, complete = b.read(outp) or b'', r[1]['exit'] == 0
        n += 1
    r = p.start(ctx, case)(p.process, argv, stdin, stdout, case['enc'], pk, [d + '/', w.dir + '/', pk + '/'], case['plan'], case['caps'], case['event'],
                 case['exc'], tty=case['tty'], nonblock=bool(case.get('nonblock')),
                        closed=case.get('closed', ()))
    if case.get('kind'):
        st['fault environment %s, hash seed %d' % (case['kind'][1], case['kind'][0])] = 1
    for k in case.get('closed', ()):
        st['fault %s is closed' % k] = 1
        if k == 'stdin' and case['src'] == k:
            complete = False
        elif k == 'stdout' and case['out'] == k:
            complete = complete and not want
    got = b.read(outp)
    crashed = r[0] == 'exit' and r[1] == 137
    if c.killed(r, case):
        st['fault interpreter killed by a failing allocation'] = 1
        code, err, total, hit = None, 'killed', -1, True
    elif crashed:
        ks = ['%s %s' % (f[0], f[3]) for f in case['plan'] if 'crash' in f[3]]
        st['fault process killed: ' + (ks[0] if len(ks) == 1 else 'one of two places')] = 1
        code, err, total = None, 'killed', -1
        hit = True
    elif r[0] != 'ok':
        return {'viol': {'class': 'the command ends: ' + str(r[0]), 'msg': repr(r)[:2000]}, 'stats': st}
    else:
        code, err, total = r[1]['exit'], r[1]['err'], r[1]['total']
        b.add_fired(st, r[1]['fired'], case['plan'])
        if r[1]['at']:
            st['fault %s in library code' % case['exc']] = 1
        hit = bool(r[1]['at'] or case.get('closed') or any('error' in k or k in ('interrupt', 'no input yet') for k in r[1]['fired']) or
                   any(f[3] == 'short' and f[4] == 0 for f in case['plan']))
    if case.get('nonblock'):
        st['fault input that does not block'] = 1
    if not complete:
        st['fault input or settings that must fail'] = 1
    started = not (case['prev'] and got == b'what was there before\n' * 50)
    text = got or b''
    if (case.get('gone') or [0, 0])[1] == 'missing' and code != 0 and \
            'usage: '.encode(case['enc'][0]).startswith(text[:len('usage: '.encode(case['enc'][0]))]):
        text = b''          # the message about wrong usage goes to standard output
    log = [code, dump.digest(text.hex()), complete, total]
    v = None
    if started and not want.startswith(text):
        k = next((i for i in range(min(len(want), len(text))) if want[i] != text[i]), min(len(want), len(text)))
        v = ('what is written is not a prefix of the result', 'written %d bytes, result %d bytes; from byte %d on: written %r, result %r' % (
            len(text), len(want), k, text[max(0, k - 10):k + 40], want[max(0, k - 10):k + 40]))
    elif code == 0 and (text != want or not complete or not started):
        v = ('success without the complete result', 'status 0; written %d of %d bytes%s' % (
            len(text), len(want), '' if complete else ' of a result that cannot be completed'))
    elif code == 0 and r[1]['fired'].get('error') and all(f[:1] + f[2:4] + f[6:] == ['close', -1, 'error', '/out.txt'] for f in case['plan'] if f[3] == 'error'):
        v = ('success without the complete result', 'status 0, although the system reported an error for what was written when the output was closed')
    elif code is not None and code != 0 and complete and not hit:
        v = ('failure without a fault', 'status %s: %s' % (code, err))
    if v:
        return {'viol': {'class': v[0], 'msg': '%s; faults %s; status %s %s' % (v[1], st, code, err)}, 'stats': st}
    st['status 0' if code == 0 else 'status not 0' if code else 'killed'] = 1
    return {'stats': st, 'evals': n, 'nontrivial': bool(any(k.startswith('fault') for k in st)),
            'sig': dump.digest([case[k] for k in ('open', 'inputs', 'plan', 'caps', 'event', 'exc', 'out', 'enc')]), 'log': dump.digest(log)}


def shrink(case):
    for x in c.drop_chunks(case['plan']):
        yield dict(case, plan=x)
    for k, v in (('caps', {}), ('event', None), ('gone', None), ('prev', None), ('enc', ['utf-8', 'strict']), ('dump', False),
                 ('full', False), ('tty', False), ('mode', 'C'), ('nonblock', False), ('closed', [])):
        if case.get(k, v) != v:
            yield dict(case, **{k: v})
    if len(case['inputs']) > 1 and case['src'] == 'files' and not case.get('gone'):
        for x in c.drop_chunks(case['inputs']):
            if x:
                yield dict(case, inputs=x)
    for i, inp in enumerate(case['inputs']):
        def put(x):
            return dict(case, inputs=case['inputs'][:i] + [x] + case['inputs'][i + 1:])
        if inp['bad']:
            yield put(dict(inp, bad=None))
        for ls in c.drop_chunks(inp['lines']):
            yield put(dict(inp, lines=ls))
        if len(inp['lines']) < 6:
            for j, t in enumerate(inp['lines']):
                for t2 in c.shorter_texts(t):
                    yield put(dict(inp, lines=inp['lines'][:j] + [t2] + inp['lines'][j + 1:]))
    if case['open'] != ['tiny', 0, 0, 'plain']:
        yield dict(case, open=['tiny', 0, 0, 'plain'])
    for i, f in enumerate(case['plan']):
        if f[1]:
            for x in (f[1] // 2, f[1] - 1):
                yield dict(case, plan=case['plan'][:i] + [[f[0], x] + f[2:]] + case['plan'][i + 1:])
    if case.get('kind'):
        yield dict(case, kind=None)
    if case['event'] and case['event'] > 1:
        for x in (case['event'] // 2, case['event'] - 1):
            yield dict(case, event=x)
