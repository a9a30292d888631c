"""C01: a tokenizer's answers never depend on what it did before."""
import gc
import logging

from simkit import dump, sched
from . import common as c

POOL = ['std'] * 6 + ['ties', 'tiny', 'nouser', 'big', 'users']


def gen(r, tier, idx):
    w = c.pick_world(r, POOL, 8 if tier == 'quick' else 60)
    s = c.spec(*w)
    nt = r.choice([1, 1, 2, 3])
    case = {'world': w, 'modes': [c.mode(r) for _ in range(nt)], 'plugins': r.random() < 0.4, 'ops': [], 'clock': c.gen_clock(r)}
    ops = case['ops']
    long_ = r.random() < (0.05 if tier == 'quick' else 0.12)
    n = r.choice([2, 3, 4, 6, 10, 20]) if not long_ else r.choice([60, 150, 400, 1300])
    sweep = c.sweep_texts(s) if w[0] == 'big' and r.random() < 0.6 else None
    p_fault = r.choice([0, 0.2, 0.5])
    last = c.text(r, s)
    if sweep:
        r.shuffle(sweep)
    words = sorted(set(s.heads), key=len)[:200]
    while len(ops) < n:
        k = r.randrange(nt)
        u = r.random()
        if long_ and n > 400:
            t = r.choice(words) if u < 0.97 else c.text(r, s)
        elif u < 0.45:
            t = c.related(r, last)
        else:
            t = c.text(r, s)
        last = t
        m = c.mode(r)
        x = r.random()
        if sweep and x < 0.3:
            for t in sweep:
                ops.append(['t', k, t, m, 0])
            sweep = None
            continue
        if x < p_fault:
            y = r.random()
            if y < 0.65:
                ops.append(['x', k, t, m, c.event(r, t), r.choice(c.ANY), int(r.random() < 0.2)])
            elif y < 0.75:
                ops.append(['lf', k, t, m, r.randrange(0, 12), r.choice(c.RAISED)])
            elif y < 0.95 and case['plugins']:
                ops.append(['pf', k, t, m, r.choice(['input', 'oov', 'path']), r.randrange(0, len(t) + 2), r.choice(c.RAISED)])
            else:
                ops.append(['bad', k, r.choice(['int', 'bytes', 'mode', 'surrogate'])])
            if r.random() < 0.8:
                t2 = c.related(r, t)
                ops.append(['t', k if r.random() < 0.8 else r.randrange(nt), t2, c.mode(r), 0])
        elif x < 0.92:
            ops.append(['t', k, t, m, int(r.random() < 0.08)])
        elif x < 0.95:
            ops.append(['new', k, c.mode(r)])
        elif x < 0.97:
            ops.append(['gc'])
        else:
            ops.append(['part', k, t, m, r.randrange(0, 4)])
    ops.append(['t', r.randrange(nt), c.related(r, last), c.mode(r), 0])
    return case


class _Sink(logging.Handler):
    def __init__(self, n, exc):
        super().__init__()
        self.n, self.exc, self.seen = n, exc, 0

    def emit(self, rec):
        rec.getMessage()
        self.seen += 1
        if self.exc is not None and self.seen > self.n:
            raise self.exc('sink')


def logger(n=0, exc=None):
    lg = logging.Logger('sim')
    lg.setLevel(logging.DEBUG)
    h = _Sink(n, exc)
    lg.addHandler(h)
    return lg, h


class Armed:
    """shared switch of the failing plugins"""
    left = None
    exc = None
    fired = 0

    def hit(self, kind):
        if self.left is not None and self.kind == kind:
            if self.left == 0:
                self.left = None
                self.fired += 1
                raise self.exc('plugin')
            self.left -= 1


def install_plugins(d, arm):
    from sudachipy.plugin.input_text import InputTextPlugin
    from sudachipy.plugin.oov import OovProviderPlugin
    from sudachipy.plugin.path_rewrite import PathRewritePlugin

    class I(InputTextPlugin):
        def set_up(self):
            pass

        def rewrite(self, builder):
            arm.hit('input')

    class O(OovProviderPlugin):
        def set_up(self, grammar):
            pass

        def provide_oov(self, text, offset, has_other_words):
            arm.hit('oov')
            return []

    class P(PathRewritePlugin):
        def set_up(self, grammar):
            pass

        def rewrite(self, text, path, lattice):
            arm.hit('path')
    d.input_text_plugins.append(I())
    d.oov_provider_plugins.insert(0, O())
    d.path_rewrite_plugins.append(P())


def _bad(t, how):
    if how == 'int':
        t.tokenize(12345)
    elif how == 'bytes':
        t.tokenize('東京'.encode())
    elif how == 'mode':
        t.tokenize('東京都', 'no such mode')
    else:
        t.tokenize('東\ud800京')


@c.clocked
def execute(case, config, want):
    from sudachipy.dictionary import Dictionary
    d = Dictionary(config_path=config)
    arm = Armed()
    if case['plugins']:
        install_plugins(d, arm)
    toks = [[d.create(dump.mode_of(m)), m] for m in case['modes']]
    st = {}
    log, sig = [], []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for i, op in enumerate(case['ops']):
        kind = op[0]
        if kind == 'gc':
            gc.collect()
            continue
        t, dm = toks[op[1]]
        if kind == 'new':
            toks[op[1]] = [d.create(dump.mode_of(op[2])), op[2]]
            continue
        if kind == 'bad':
            try:
                _bad(t, op[2])
            except Exception as e:
                count('fault bad argument')
                sig.append(type(e).__name__)
            continue
        text, m = op[2], op[3]
        ref = want[(text, m or dm or 'C')]
        if kind == 'part':
            try:
                ml = t.tokenize(text, dump.mode_of(m))
                for j in range(min(op[4], len(ml))):
                    ml[j].part_of_speech()
            except Exception:
                pass
            continue
        got = None
        broken = None
        try:
            if kind == 't':
                lg = logger()[0] if op[4] else None
                got = dump.tok(t, text, m, lg)
                count('calls')
            elif kind == 'x':
                with sched.Tracer(op[4], c.EXC[op[5]]) as tr:
                    ml = t.tokenize(text, dump.mode_of(m), logger()[0]) if op[6] else t.tokenize(text, dump.mode_of(m))
                    got = ['ok', dump.mlist(ml)]
                count('interrupts behind the end of the call')
            elif kind == 'lf':
                lg, h = logger(op[4], c.EXC[op[5]])
                got = ['ok', dump.mlist(t.tokenize(text, dump.mode_of(m), lg))]
            elif kind == 'pf':
                arm.kind, arm.left, arm.exc = op[4], op[5], c.EXC[op[6]]
                got = ['ok', dump.mlist(t.tokenize(text, dump.mode_of(m)))]
        except BaseException as e:
            broken = e
            got = dump.exc(e)
        arm.left = None
        if broken is not None:
            if kind == 'x' and tr.fired:
                count('fault %s in library code' % op[5])
                sig.append(tr.fired)
                log.append('x')
                continue
            if kind == 'lf' and h.seen > h.n:
                count('fault failing debug sink')
                log.append('l')
                continue
            if kind == 'pf' and 'plugin' in str(broken):
                count('fault failing %s plugin' % op[4])
                log.append('p')
                continue
        same = got == ref if ref[0] == 'ok' or got[0] == 'ok' else got[0] == ref[0]
        log.append(dump.digest(got))
        if got[0] != 'ok':
            count('unanalysable texts')
        if not same:
            cls = 'the call raises' if got[0] != 'ok' else 'the answer differs'
            return {'viol': {'class': cls, 'msg': 'operation %d %r\nin a fresh process: %.1500s\nhere: %.1500s' % (
                i, op, _first_diff(ref, got), _first_diff(got, ref))}, 'stats': st}
    return {'stats': st, 'sig': dump.digest([case['world'], sig, [o[0] for o in case['ops']]]),
            'nontrivial': len(log) >= 2, 'log': dump.digest(log), 'evals': max(1, st.get('calls', 0))}


def _first_diff(a, b):
    if a[0] == 'ok' and b[0] == 'ok':
        x, y = a[1][0], b[1][0]
        for i in range(max(len(x), len(y))):
            if i >= len(x):
                return 'only %d morphemes: %r' % (len(x), [m[2] for m in x])
            if i >= len(y) or x[i] != y[i]:
                return 'morpheme %d: %r' % (i, x[i])
    return repr(a)


def needs(case):
    modes = list(case['modes'])
    out = []
    for op in case['ops']:
        if op[0] == 'new':
            modes[op[1]] = op[2]
        elif op[0] in ('t', 'x', 'lf', 'pf', 'part'):
            out.append((op[2], op[3] or modes[op[1]] or 'C'))
    return out


def run(case, ctx):
    w = ctx.world(*case['world'])
    want = ctx.fresh_many(w, needs(case))
    r = ctx.fork(execute, case, w.config, want)
    return finish(r, case)


def finish(r, case=None):
    if r[0] == 'ok':
        return r[1]
    if c.killed(r, case):
        return {'stats': {'interpreter killed by a failing allocation': 1}, 'nontrivial': False, 'log': 'killed', 'evals': 1}
    if r[0] == 'exc':
        return {'viol': {'class': 'the workload raises ' + r[1], 'msg': r[2]}, 'stats': {}}
    return {'viol': {'class': 'the process ends: ' + str(r[0]), 'msg': repr(r)}, 'stats': {}}


def shrink(case):
    if case.get('clock'):
        yield dict(case, clock=0)
    for ops in c.drop_chunks(case['ops']):
        if ops:
            yield dict(case, ops=ops)
    if case['plugins']:
        yield dict(case, plugins=False)
    for i, op in enumerate(case['ops']):
        if op[0] in ('t', 'x', 'lf', 'pf', 'part'):
            for t in c.shorter_texts(op[2]):
                yield dict(case, ops=case['ops'][:i] + [[op[0], op[1], t] + op[3:]] + case['ops'][i + 1:])
            if op[0] == 't' and op[4]:
                yield dict(case, ops=case['ops'][:i] + [op[:4] + [0]] + case['ops'][i + 1:])
            if op[0] == 'x' and op[4] > 1:
                for k in (op[4] // 2, op[4] - 1):
                    yield dict(case, ops=case['ops'][:i] + [op[:4] + [k] + op[5:]] + case['ops'][i + 1:])
