"""C11: the tokenize command streams its input line by line."""
from simkit import dump, shim
from . import building as b, c10, cliproc as p, common as c, opening as o


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 30
    while True:
        op = o.gen_open(r, nw, invalid=0.0)
        if 'resdir' not in op[3] and op[3] != 'type huge':
            break
    s = c.spec(*op[:2])
    src = r.choice(['stdin'] * 5 + ['files'])
    case = {'open': op, 'mode': r.choice('ABC'), 'full': r.random() < 0.5, 'dump': False, 'src': src,
            'inputs': [p.gen_input(r, s, allow=('cr',)) for _ in range(1 if src == 'stdin' else r.choice([1, 2, 3]))],
            'out': r.choice(['stdout', 'stdout', '-o']), 'prev': None, 'enc': r.choice(p.ENC[:18]), 'tty': r.random() < 0.2, 'gone': None,
            'keep': False, 'deliveries': [], 'kind': p.gen_kind(r)}
    if r.random() < 0.05:       # one long line, many short lines
        case['inputs'][0]['lines'] = r.choice([[r.choice(s.heads) * 300], ['東'] * 3000, [''] * 9000])
    for _ in range(r.choice([1, 2, 3])):
        case['deliveries'].append(delivery(r, case['inputs'][0], case['enc']))
        if src == 'stdin' and r.random() < 0.1:
            c10.not_yet(r, case['deliveries'][-1]['read'])
    return case


def delivery(r, inp, enc):
    """how the system hands over the input and takes the output: {'read': [...], 'write': [...]}"""
    k = r.random()
    out = {}
    if k < 0.25:
        out['read'] = [r.choice([1, 1, 2, 3, 5]) for _ in range(r.randrange(1, 6))]
    elif k < 0.6:
        # pieces around the ends of the lines
        cuts = []
        for x in inp['lines'][:100]:
            n = len((x + '\n').encode(enc[0], 'replace'))
            y = r.random()
            if y < 0.5:
                cuts.append(n)
            elif y < 0.7 and n > 1:
                cuts += [n - 1, 1]
            elif y < 0.85:
                q = r.randrange(1, n + 1)
                cuts += [q, n - q] if n > q else [q]
            else:
                cuts.append(n + 1)
        out['read'] = cuts[:200] or [0]
    else:
        out['read'] = [r.choice([1, 7, 100, 1000, 4096, 8191, 8192]) for _ in range(r.randrange(1, 9))]
    if r.random() < 0.4:
        for _ in range(r.choice([1, 3])):
            out['read'].insert(r.randrange(len(out['read']) + 1), -1)
    if len(out['read']) > 1 and r.random() < 0.3:
        out['read'].append(0)
    if r.random() < 0.3:
        out['write'] = [r.choice([-1, 0, 1, 3, 10, 100]) for _ in range(r.randrange(1, 6))] + [r.choice([0, 2])]
    return out


def run(case, ctx):
    d = ctx.tmp()
    try:
        return judge(case, ctx, d)
    finally:
        ctx.rmtree(d)


def judge(case, ctx, d):
    argv, outp, want, complete = c10.prepare(case, ctx, d)
    stdin = d + '/in0.txt' if case['src'] == 'stdin' else None
    stdout = outp if case['out'] == 'stdout' else None
    pk = ctx.packages()
    st, log = {}, []
    n = 0
    data = b.read(d + '/in0.txt')
    if not complete:        # settings that must fail, text that the output encoding lacks
        return {'stats': {'not decided': 1}, 'sig': None, 'nontrivial': False, 'log': 'x', 'evals': 1}
    per = None
    if case['src'] == 'stdin':
        lines = p.lines_of(data, case['enc'], '\n')[0]
        per = []            # bytes of output due when so many bytes have been received
        size = 0
        due = 0
        results = dict.fromkeys(lines)
        w = o.oracle(ctx, case['open'], [(t, case['mode']) for t in results])
        for t in results:
            results[t] = len(p.render(w[(t, case['mode'])], case['full']).encode('utf-8', 'surrogateescape'))
        for t in lines:
            size += len(t.encode(*case['enc'])) + 1
            due += results[t]
            per.append((size, due))
    for cp in case['deliveries']:
        r = p.start(ctx, case)(p.process, argv, stdin, stdout, case['enc'], pk, [d + '/'], (), cp, want_ops=True, tty=case['tty'],
                             nonblock=-2 in cp.get('read', ()))
        if r[0] != 'ok':
            return {'viol': {'class': 'the command ends: ' + str(r[0]), 'msg': repr(r)[:2000]}, 'stats': st}
        r = r[1]
        b.add_fired(st, r['fired'], [])
        if -2 in cp.get('read', ()):
            st['fault input that does not block'] = st.get('fault input that does not block', 0) + 1
        got = b.read(outp)
        n += 1
        if r['exit'] != 0 or got != want:
            k = next((i for i in range(min(len(want), len(got))) if want[i] != got[i]), min(len(want), len(got)))
            return {'viol': {'class': 'the output depends on the delivery', 'msg': 'status %s %s; %d bytes, expected %d; from byte %d on %r, expected %r' % (
                r['exit'], r['err'], len(got), len(want), k, got[k:k + 40], want[k:k + 40])}, 'stats': st}
        if per is None:
            continue
        got_in = got_out = 0
        i = 0
        eof = 0
        for kind, fd, req, ret, name, _ in r['ops']:
            if kind == shim.READ and fd == 0:
                n += 1
                while i < len(per) and per[i][0] <= got_in:
                    i += 1
                due = per[i - 1][1] if i else 0
                if got_out < due:
                    return {'viol': {'class': 'waits for input before the results are written', 'msg':
                            '%d complete lines (%d bytes) received, their results have %d bytes, %d are written when the next read begins' % (
                                i, got_in, due, got_out)}, 'stats': st}
                if ret == 0:
                    eof += 1
                got_in += max(ret, 0)
                st['reads'] = st.get('reads', 0) + 1
            elif kind == shim.WRITE and (fd == 1 if stdout else name == outp):
                got_out += max(ret, 0)
        if got_out != len(want) or got_in != len(data):
            return {'viol': {'class': 'transfers not seen', 'msg': '%d of %d read, %d of %d written' % (got_in, len(data), got_out, len(want))}, 'stats': st}
        if eof > 4:
            return {'viol': {'class': 'reads on after the end of input', 'msg': '%d reads' % eof}, 'stats': st}
        if case.get('kind'):
            k = 'fault environment %s, hash seed %d' % (case['kind'][1], case['kind'][0])
            st[k] = st.get(k, 0) + 1
        st['lines'] = st.get('lines', 0) + len(per)
        log.append([dump.digest(got.hex()), r['total']])
    return {'stats': st, 'evals': n, 'nontrivial': True, 'sig': dump.digest(case), 'log': dump.digest(log)}


def shrink(case):
    if case.get('kind'):
        yield dict(case, kind=None)
    for x in c.drop_chunks(case['deliveries']):
        if x:
            yield dict(case, deliveries=x)
    for i, dl in enumerate(case['deliveries']):
        for k in dl:
            yield dict(case, deliveries=case['deliveries'][:i] + [{q: v for q, v in dl.items() if q != k}] + case['deliveries'][i + 1:])
            for v in c.drop_chunks(dl[k]):
                if any(x >= 0 for x in v):
                    yield dict(case, deliveries=case['deliveries'][:i] + [dict(dl, **{k: v})] + case['deliveries'][i + 1:])
    yield from c10.shrink(dict(case, plan=[], caps={}, event=None))
