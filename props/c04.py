"""C04: dictionaries opened in one process are independent."""
import gc
import os
import sys

from simkit import dump, sched
from . import common as c, opening as o
from .c01 import _first_diff, finish


def gen(r, tier, idx):
    nw = 4 if tier == 'quick' else 25
    opens = [o.gen_open(r, nw) for _ in range(r.choice([2, 2, 3, 4, 5]))]
    if r.random() < 0.5:                        # several settings over the same files
        a = opens[0]
        if not a[3].startswith('type'):
            opens.append([a[0], a[1], r.randrange(20), a[3]])
    ops = []
    slots = {}
    for _ in range(r.choice([5, 10, 20, 30])):
        x = r.random()
        if x < 0.3 or not slots:
            i = r.randrange(len(opens))
            s = r.randrange(5)
            ops.append(['open', s, i])
            slots[s] = i
        elif x < 0.4:
            ops.append(['xopen', r.randrange(len(opens)), int(2 ** r.uniform(0, 12)), r.choice(c.ANY)])
        elif x < 0.85:
            s = r.choice(sorted(slots))
            t = c.text(r, c.spec(*opens[slots[s]][:2]))
            ops.append(['use', s, t, r.choice('ABC'), r.choice(['new', 'old', 'old'])])
        elif x < 0.91:
            ops.append(['close', r.choice(sorted(slots))])
        elif x < 0.95:
            ops.append(['drop', r.choice(sorted(slots))])
        else:
            ops.append(['gc'])
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.insert(r.randrange(len(ops)), ['cd', r.randrange(len(opens))])
    return {'opens': opens, 'ops': ops, 'clock': c.gen_clock(r)}


def plan(case):
    """which requests go to which opening (the state is followed as in execute)"""
    need = {i: [('', 'C')] for i in range(len(case['opens']))}
    slots = {}
    for op in case['ops']:
        if op[0] == 'open':
            slots[op[1]] = op[2]
        elif op[0] == 'use' and op[1] in slots:
            need[slots[op[1]]].append((op[2], op[3]))
    return need


@c.clocked
def execute(case, kws, want, pk, dirs):
    sys.path.insert(0, pk)
    slots = {}
    st, sig, log = {}, [], []
    n = 0

    def count(k):
        st[k] = st.get(k, 0) + 1
    for i, op in enumerate(case['ops']):
        k = op[0]
        if k == 'open':
            slots.pop(op[1], None)
            d, err = o.do_open(kws[op[2]])
            ref = want[op[2]][('', 'C')]
            n += 1
            log.append(err)
            alone = ref[1] if ref[0] == 'noopen' else None
            if (err is None) != (alone is None):
                return {'viol': {'class': 'opening differs', 'msg': 'operation %d: opening %r alone: %s; here: %s' % (
                    i, case['opens'][op[2]], alone or 'works', err or 'works')}, 'stats': st}
            if err:
                count('fault opening that must fail')
            else:
                slots[op[1]] = [d, op[2], []]
        elif k == 'xopen':
            from sudachipy.dictionary import Dictionary
            try:
                with sched.Tracer(op[2], c.EXC[op[3]]) as tr:
                    Dictionary(**kws[op[1]])
            except BaseException:
                pass
            if tr.fired:
                count('fault %s inside an opening' % op[3])
                sig.append(tr.fired)
        elif k == 'use':
            if op[1] not in slots:
                continue
            d, oi, toks = slots[op[1]]
            ref = want[oi].get((op[2], op[3]))
            if ref is None:     # only when a shrunk case lost the opening
                continue
            if not toks or (op[4] == 'new' and d is not None):
                if d is None:
                    continue
                toks.append(d.create())
            got = dump.tok(toks[-1 if op[4] == 'new' else 0], op[2], op[3])
            n += 1
            log.append(dump.digest(got))
            if got != ref if ref[0] == 'ok' or got[0] == 'ok' else got[0] != ref[0]:
                return {'viol': {'class': 'the answer differs', 'msg': 'operation %d %r on %r\nalone: %.1500s\nhere: %.1500s' % (
                    i, op, case['opens'][oi], _first_diff(ref, got), _first_diff(got, ref))}, 'stats': st}
        elif k in ('close', 'drop'):
            s = slots.pop(op[1], None)
            if s and k == 'close':
                try:
                    s[0].close()
                    count('closes')
                except Exception:
                    count('closes that raised')
        elif k == 'cd':
            os.chdir(dirs[op[1]])
            count('fault other working directory')
        else:
            gc.collect()
    return {'stats': st, 'sig': dump.digest([case['opens'], sig, [x[:3] for x in case['ops'] if x[0] != 'use']]), 'nontrivial': n > 2,
            'log': dump.digest([log, sorted(st.items())]), 'evals': max(1, n)}


def run(case, ctx):
    need = plan(case)
    kws = [o.kwargs(ctx, x) for x in case['opens']]
    want = [o.oracle(ctx, x, need[i]) for i, x in enumerate(case['opens'])]
    return finish(ctx.fork(execute, case, kws, want, ctx.packages(), [ctx.world(*x[:2]).dir for x in case['opens']]), case)


def shrink(case):
    if case.get('clock'):
        yield dict(case, clock=0)
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    for i, x in enumerate(case['opens']):
        for y in ([x[0], x[1], 0, x[3]], [x[0], x[1], x[2], 'plain']):
            if x != y and not x[3].startswith('type'):
                yield dict(case, opens=case['opens'][:i] + [y] + case['opens'][i + 1:])
    for i, op in enumerate(case['ops']):
        if op[0] == 'use':
            for t in c.shorter_texts(op[2]):
                yield dict(case, ops=case['ops'][:i] + [op[:2] + [t] + op[3:]] + case['ops'][i + 1:])
