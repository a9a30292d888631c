"""C03: results that were handed out never change."""
import gc
import random

from simkit import dump, sched
from . import common as c
from .c01 import Armed, finish, install_plugins

POOL = ['std'] * 6 + ['ties', 'tiny', 'big', 'users', 'users']
FIELDS = ['begin', 'end', 'surface', 'part_of_speech', 'part_of_speech_id', 'dictionary_form', 'normalized_form',
          'reading_form', 'is_oov', 'word_id', 'dictionary_id', 'synonym_group_ids']


def gen(r, tier, idx):
    w = c.pick_world(r, POOL, 6 if tier == 'quick' else 40)
    s = c.spec(*w)
    nt = r.choice([1, 1, 2])
    ops, hs = [], []
    texts = [c.text(r, s) for _ in range(4)]
    texts += ['東京', '東京都に']
    sweep = c.sweep_texts(s) if w[0] == 'big' else None
    n = r.choice([4, 8, 15, 30])
    closed = False
    alive = set(range(nt))
    dead_dict = False
    while len(ops) < n:
        x = r.random()
        usable = sorted(alive) if not closed else []
        if (x < 0.3 or not hs) and usable:
            t = r.choice(texts) if r.random() < 0.6 else c.text(r, s)
            if not t:
                continue
            hs.append(len(hs))
            ops.append(['t', r.choice(usable), t, c.mode(r) or 'C', hs[-1]])
        elif not hs:
            break
        elif x < 0.5:
            ops.append(['read', r.choice(hs), r.getrandbits(30), r.choice([0, 1, 1, 2])])
        elif x < 0.62:
            h = r.choice(hs)
            hs.append(len(hs))
            ops.append([r.choice(['m', 'split', 'split', 'split']), h, r.randrange(20), r.choice('ABC'), hs[-1]])
        elif x < 0.74 and usable:
            t = r.choice(texts)
            ops.append(['x', r.choice(usable), t, c.mode(r) or 'C', c.event(r, t), r.choice(c.ANY)])
        elif x < 0.8:
            ops.append(['xr', r.choice(hs), r.getrandbits(30), r.randrange(1, 200), r.choice(c.ANY)])
        elif x < 0.86 and usable:
            ops.append(['busy', r.choice(usable), [c.text(r, s) for _ in range(r.choice([1, 3, 10]))]])
        elif x < 0.9 and usable and sweep:
            ops.append(['busy', r.choice(usable), sweep])
        elif x < 0.93:
            ops.append(['gc'])
        elif x < 0.96 and len(ops) > 3:
            k = r.choice(['drop', 'close', 'deldict', 'close', 'bad'])
            ops.append([k] + ([r.choice(usable)] if k in ('drop', 'bad') and usable else []))
            if k in ('drop', 'bad') and not usable:
                ops.pop()
            elif k == 'drop':
                alive.discard(ops[-1][1])
            elif k == 'close':
                closed = True
    if r.random() < 0.5 and hs:
        ops.append([r.choice(['close', 'deldict'])])
        for k in sorted(alive):
            if r.random() < 0.6:
                ops.append(['drop', k])
        ops.append(['gc'])
        for _ in range(3):
            ops.append(['read', r.choice(hs), r.getrandbits(30), r.choice([1, 2])])
    return {'world': w, 'nt': nt, 'plugins': r.random() < 0.2, 'ops': ops, 'clock': c.gen_clock(r, 0.15)}


def _cmp_morpheme(m, ref, r, how):
    """reads fields in random order; how: 0 a few, 1 all, 2 all and splits"""
    idx = list(range(12))
    r.shuffle(idx)
    if how == 0:
        idx = idx[:r.randrange(1, 4)]
    for i in idx:
        v = getattr(m, FIELDS[i])()
        v = list(v) if isinstance(v, (list, tuple)) else v
        if v != ref[i]:
            return '%s of %r: %r, was %r' % (FIELDS[i], ref[2], v, ref[i])
    if how and dump.info(m.get_word_info()) != ref[12]:
        return 'word info of %r: %r, was %r' % (ref[2], dump.info(m.get_word_info()), ref[12])
    if how == 2 and len(ref) > 13:
        for k, mode in enumerate('ABC'):
            got = [dump.morpheme(x) for x in m.split(dump.mode_of(mode))]
            if got != ref[13][k]:
                return '%s split of %r: %.600r, was %.600r' % (mode, ref[2], got, ref[13][k])
    return None


def _cmp(kind, obj, ref, r, how):
    if kind == 'm':
        return _cmp_morpheme(obj, ref, r, how)
    n = len(ref)
    if len(obj) != n:
        return '%d morphemes, was %d' % (len(obj), n)
    order = list(range(n))
    if r.random() < 0.5:
        r.shuffle(order)
    if how == 0:
        order = order[:2]
    for i in order:
        j = i - n if r.random() < 0.2 else i
        e = _cmp_morpheme(obj[j], ref[i], r, how)
        if e:
            return e
    if kind == 'l' and how and str(obj) != ''.join([x[2] for x in ref]):
        return 'text %r' % str(obj)
    if kind == 'l' and how and (obj.size(), [obj.get_surface(i) for i in range(n)]) != (n, [x[2] for x in ref]):
        return 'size or surfaces'
    if how == 2 and [dump.morpheme(m) for m in obj] != [x[:13] for x in ref]:
        return 'iteration gives something else'
    return None


@c.clocked
def execute(case, config, want):
    from sudachipy.dictionary import Dictionary
    d = Dictionary(config_path=config)
    arm = Armed()
    if case['plugins']:
        install_plugins(d, arm)
    toks = {k: d.create() for k in range(case['nt'])}
    st, sig, log = {}, [], []
    H = {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    judged = 0
    keep = []
    closed = False
    for i, op in enumerate(case['ops']):
        k = op[0]
        try:
            if k == 't':
                ref = want[(op[2], op[3])]
                if op[1] not in toks or closed:
                    continue
                try:
                    ml = toks[op[1]].tokenize(op[2], dump.mode_of(op[3]))
                except Exception:
                    continue
                if ref[0] == 'ok':
                    H[op[4]] = ('l', ml, ref[1][0])
            elif k in ('m', 'split'):
                if op[1] not in H or H[op[1]][0] != 'l' or not H[op[1]][2]:
                    continue
                _, ml, ref = H[op[1]]
                j = op[2] % len(ref)
                m = ml[j]
                if k == 'm' and op[3] == 'A':
                    H[op[4]] = ('m', m, ref[j])
                elif k == 'm' and op[3] == 'B':
                    H[op[4]] = ('s', list(ml), ref)         # all of one iteration
                elif k == 'm':
                    its = iter(ml), iter(ml)                # two iterations, one of which is not finished
                    H[op[4]] = ('s', [next(its[0]) for _ in range(j + 1)], ref[:j + 1])
                    keep.append((its, list(its[1])))
                elif len(ref[j]) > 13:
                    H[op[4]] = ('s', m.split(dump.mode_of(op[3])), ref[j][13]['ABC'.index(op[3])])
            elif k == 'read':
                if op[1] not in H:
                    continue
                kind, obj, ref = H[op[1]]
                e = _cmp(kind, obj, ref, random.Random(op[2]), op[3])
                judged += 1
                log.append(e)
                if closed:
                    count('reads after close')
                if e:
                    return {'viol': {'class': 'a result changed', 'msg': 'operation %d %r: %s' % (i, op, e)}, 'stats': st}
            elif k == 'x':
                if op[1] not in toks or closed:
                    continue
                try:
                    with sched.Tracer(op[4], c.EXC[op[5]]) as tr:
                        toks[op[1]].tokenize(op[2], dump.mode_of(op[3]))
                except BaseException as e:
                    if tr.fired:
                        count('fault %s in a tokenize call' % op[5])
                        sig.append(tr.fired)
            elif k == 'xr':
                if op[1] not in H:
                    continue
                kind, obj, ref = H[op[1]]
                try:
                    with sched.Tracer(op[3], c.EXC[op[4]]) as tr:
                        _cmp(kind, obj, ref, random.Random(op[2]), 2)
                except BaseException as e:
                    if not tr.fired:
                        raise
                    count('fault %s while reading a result' % op[4])
                    sig.append(tr.fired)
            elif k == 'busy':
                if op[1] not in toks or closed:
                    continue
                for t in op[2]:
                    try:
                        dump.mlist(toks[op[1]].tokenize(t))
                    except Exception:
                        pass
            elif k == 'gc':
                gc.collect()
            elif k == 'drop':
                toks.pop(op[1], None)
            elif k == 'deldict':
                d = None
            elif k == 'close':
                if d is not None:
                    closed = True
                    try:
                        d.close()
                        count('closes')
                    except Exception:
                        count('closes that raised')
            elif k == 'bad':
                if op[1] in toks:
                    try:
                        toks[op[1]].tokenize(17)
                    except Exception:
                        count('fault bad argument')
        except Exception as e:
            import traceback
            return {'viol': {'class': 'reading a result raises' if k == 'read' else k + ' raises', 'msg': 'operation %d %r: %s' % (
                i, op, traceback.format_exc()[-1500:])}, 'stats': st}
    # everything still held, in the end
    for h in sorted(H):
        kind, obj, ref = H[h]
        try:
            e = _cmp(kind, obj, ref, random.Random(h), 2)
        except Exception as x:
            import traceback
            return {'viol': {'class': 'reading a result raises', 'msg': 'at the end, result %d: %s' % (
                h, traceback.format_exc()[-1500:])}, 'stats': st}
        judged += 1
        log.append(e)
        if e:
            return {'viol': {'class': 'a result changed', 'msg': 'at the end, result %d: %s' % (h, e)}, 'stats': st}
    return {'stats': st, 'sig': dump.digest([case['world'], sig, [o[0] for o in case['ops']]]), 'nontrivial': judged > 1,
            'log': dump.digest([log, sorted(st.items())]), 'evals': max(judged, 1)}


def run(case, ctx):
    w = ctx.world(*case['world'])
    want = ctx.fresh_many(w, [(o[2], o[3]) for o in case['ops'] if o[0] == 't'])
    return finish(ctx.fork(execute, case, w.config, want), case)


def shrink(case):
    if case.get('clock'):
        yield dict(case, clock=0)
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    if case['plugins']:
        yield dict(case, plugins=False)
    for i, op in enumerate(case['ops']):
        rest = lambda o: dict(case, ops=case['ops'][:i] + [o] + case['ops'][i + 1:])
        if op[0] in ('t', 'x'):
            for t in c.shorter_texts(op[2]):
                yield rest(op[:2] + [t] + op[3:])
        if op[0] == 'busy':
            for t in c.drop_chunks(op[2]):
                if t:
                    yield rest(op[:2] + [t])
