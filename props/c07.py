"""C07: a build that reports success is complete and reads back."""
import csv
import io
import json
import os
import random

from simkit import dump, worlds
from . import building as b, common as c
from .c01 import finish

FEATS = ['sparse', 'non-square', 'long strings', 'very long', 'long head', 'astral', 'escapes', 'inline refs', 'hidden words',
         'homographs', 'many homographs', 'long pos', 'many pos', '18 columns', 'big synonyms', 'many splits', 'comments',
         'quotes', 'description', 'extreme numbers', 'dictionary forms', 'user pos', 'cross refs', 'many words']
UNSURE = ['astral overlong', 'pos comma', 'too many homographs', 'long description', 'matrix out of range', 'bad astral escape',
          'overlong', 'overlong head', 'missing ref', 'missing ref']


def gen(r, tier, idx):
    k = r.choice([0, 1, 2, 4, 8, len(FEATS)])
    feats = r.sample(FEATS, k)
    if r.random() < 0.18:
        feats.append(r.choice(UNSURE))
    nuser = r.choice([0, 0, 1, 1, 2, 3, 5, 9, 15]) if r.random() < 0.8 else r.choice([8, 12, 15])
    case = {'seed': r.getrandbits(32), 'feats': feats, 'n': r.choice([1, 2, 5, 10, 30]), 'nuser': nuser,
            'un': r.choice([1, 3, 8]), 'faults': [], 'order': r.random() < 0.3, 'parts': r.choice([1, 1, 1, 2, 3, 7])}
    if r.random() < 0.45:
        for t in range(nuser + 1):
            if r.random() < 0.5:
                f = {'plan': [], 'caps': {}}
                if r.random() < 0.35:
                    x, f['caps'] = b.aim(r, ['/lex%d.csv' % t] * 3 + ['/matrix.def', '/system.dic', '.tmp', '.dic'], False,
                                         ('open', 'read', 'read', 'read', 'write', 'mmap', 'close', 'fsync', 'rename'))
                    f['plan'] = [x]
                elif r.random() < 0.7:
                    f['plan'] = [b.gen_fault(r, crash=False)]
                if r.random() < 0.6 and not f['caps']:
                    f['caps'] = b.gen_caps(r)
                    if set(feats) & {'very long', 'many words', 'long strings', 'many splits', 'many homographs', 'too many homographs'}:
                        f['caps'] = {k: [x * 10 if x > 0 else x for x in v] for k, v in f['caps'].items()}
                case['faults'].append([t, f])
    return case


class Model:
    pass


def _str(r, feats, n=None):
    a = [worlds.KANJI, worlds.HIRA, worlds.KATA, worlds.ALPHA, 'éßΩДя€']
    if 'astral' in feats:
        a += ['𠮷😀𩸽𠮟'] * 2
    if 'quotes' in feats:
        a += ['"', ',', ' ', "'", '\t', '#']
    n = n or r.choice([1, 1, 2, 2, 3, 5])
    s = ''.join(r.choice(r.choice(a)) for _ in range(n))
    return s if s.strip() == s else 'x' + s + 'x'


def _value(r, feats):
    x = r.random()
    if 'long strings' in feats and x < 0.25:
        n = r.choice([127, 128, 129, 200, 255, 256, 300, 1000])
        return _str(r, feats, n)
    if 'very long' in feats and x < 0.3:
        return r.choice(['長', 'x', 'Ω']) * r.choice([32767, 32766, 20000])
    if 'astral overlong' in feats and x < 0.35:
        return '𠮷' * r.choice([16384, 20000, 32767])
    if 'overlong' in feats and x < 0.35:
        return r.choice(['長', 'x', 'Ω']) * r.choice([32768, 32769, 33000, 65535, 65536])
    return _str(r, feats)


def _esc(r, s):
    if len(s) > 1200:
        return _esc(r, s[:300]) + s[300:-300] + _esc(r, s[-300:])
    out = []
    for ch in s:
        o = ord(ch)
        if r.random() < 0.5 and o > 0x20:
            if o < 0x10000:
                out.append(r.choice(['\\u%04x', '\\u%04X', '\\u{%04x}']) % o)
            else:
                out.append('\\u{%05x}' % o)
        else:
            out.append(ch)
    return ''.join(out)


def make(case):
    r = random.Random('c07/%s' % case['seed'])
    F = set(case['feats'])
    m = Model()
    m.unsure = bool(F & set(UNSURE))
    m.l = r.choice([1, 2, 3, 5, 9])
    m.r = r.choice([1, 2, 4, 7]) if 'non-square' in F else m.l
    m.matrix = {}
    cells = [(i, j) for i in range(m.l) for j in range(m.r)]
    if 'sparse' in F:
        cells = r.sample(cells, r.randrange(0, len(cells) + 1))
    if r.random() < 0.5:
        r.shuffle(cells)
    lines = ['%d %d' % (m.l, m.r)]
    for i, j in cells:
        x = r.choice([r.randrange(-3000, 3000), 0, 32767, -32768, 1]) if 'extreme numbers' in F else r.randrange(-500, 500)
        m.matrix[(i, j)] = x
        lines.append('%d %d %d' % (i, j, x))
        if 'comments' in F and r.random() < 0.3:
            lines.append(r.choice(['', '# comment', '   ', '#0 0 5']))
    if 'matrix out of range' in F:
        lines.insert(r.randrange(1, len(lines) + 1), '%d %d 7' % r.choice([(m.l, 0), (m.l, m.r - 1), (0, m.r), (m.l + 1, m.r + 3)]))
    m.matrix_text = '\n'.join(lines) + r.choice(['', '\n'])
    m.desc = '' if 'description' not in F else r.choice(['説' * 85, 'x' * 256, 'д' * 128, 'plain', '𠮷' * 64])
    if 'long description' in F:
        m.desc = '説' * 86
    base_pos = [['名詞', '普通名詞', '一般', '*', '*', '*'], ['名詞', '数詞', '*', '*', '*', '*'], ['助詞', '*', '*', '*', '*', '*']]
    if 'long pos' in F:
        base_pos.append(['長' * r.choice([127, 128, 200, 300]), 'x' * 130, '*', '*', '*', '*'])
    if 'many pos' in F:
        base_pos += [['品詞', '%d' % i, '*', '*', '*', '*'] for i in range(r.choice([100, 300]))]
    if 'astral' in F:
        base_pos.append(['𠮷', '😀', '*', '*', '*', 'あ𩸽'])
    if 'pos comma' in F:
        base_pos.append(['a,b', '*', '*', '*', '*', '*'])
    m.dicts = []
    n = case['n'] if 'many words' not in F else 400
    m.dicts.append(_entries(r, F, m, n, base_pos, None, 0))
    for u in range(case['nuser']):
        pool = list(base_pos)
        if 'user pos' in F:
            pool += [['ユーザ', r.choice(['%d' % u, 'common']), str(i), '*', '*', '*'] for i in range(r.choice([1, 3, 30]))] * 2
            if 'long pos' in F:
                pool.append(['u' * 200 + str(u), '*', '*', '*', '*', '*'])
        m.dicts.append(_entries(r, F, m, case['un'], pool, m.dicts[0], u + 1))
    m.csv = [_csv(r, F, d) for d in m.dicts]
    return m


def _entries(r, F, m, n, pool, system, no):
    out = []
    for i in range(n):
        if 'homographs' in F and out and r.random() < 0.4:
            head = r.choice(out)['head']
        elif 'long head' in F and r.random() < 0.2:
            head = r.choice(['頭', 'h', 'д']) * r.choice([127, 128, 1000, 10922])
        elif 'overlong head' in F and r.random() < 0.2:
            head = r.choice(['頭' * 10923, 'h' * 32767, 'h' * 32768, 'д' * 16384, 'h' * 40000])
        elif out and r.random() < 0.3:
            head = r.choice(out)['head'][:50] + _str(r, F, 1)
        else:
            head = _str(r, F)
        x = r.random()
        surface = head if x < 0.6 and len(head) < 32767 else _value(r, F)
        ext = 'extreme numbers' in F
        hidden = 'hidden words' in F and r.random() < 0.25
        e = dict(head=head, lid=-1 if hidden else r.randrange(m.r), rid=-1 if hidden and r.random() < 0.6 else r.randrange(m.l),
                 cost=r.choice([32767, -32767, 0, -1]) if ext and r.random() < 0.5 else r.randrange(-100, 9000),
                 surface=surface, pos=r.choice(pool), reading=r.choice([surface, _value(r, F)]), norm=r.choice([surface, _value(r, F)]),
                 dform=-1, styp='A', splits=[[], [], []], syn=[], hidden=hidden)
        if r.random() < 0.4:
            k = r.choice([1, 2, 3]) if 'big synonyms' not in F else r.choice([1, 127, 128 - 1, 50])
            e['syn'] = [r.choice([0, 1, 99999, 2 ** 31 - 1, r.randrange(10 ** 6)]) for _ in range(k)]
        out.append(e)
    for k, name in ((254, 'many homographs'), (256, 'too many homographs')):
        if name in F:
            t = dict(out[0], hidden=False, lid=0, rid=0, head='同', surface='同')
            out += [dict(t, reading='ヨミ%d' % i, syn=[], splits=[[], [], []]) for i in range(k)]
    # dictionary forms: words that have none themselves
    if 'dictionary forms' in F:
        plain = [i for i in range(len(out)) if r.random() < 0.5]
        if plain:
            for i, e in enumerate(out):
                if i not in plain and r.random() < 0.7:
                    e['dform'] = r.choice(plain)
    # splits
    inline = 40         # references by name cost a scan of the dictionary each
    for i, e in enumerate(out):
        if r.random() < (0.5 if len(out) < 100 else 0.9):
            continue
        for s in range(3):
            if r.random() < 0.3:
                continue
            k = r.choice([1, 2, 3]) if 'many splits' not in F else r.choice([2, 50, 127])
            refs = []
            for _ in range(k):
                if system is not None and (r.random() < 0.5 or 'cross refs' not in F and r.random() < 0.5):
                    t, j, src = 0, r.randrange(len(system)), system
                else:
                    t, j, src = no, r.randrange(len(out)), out
                style = 'id'
                if 'inline refs' in F and inline and r.random() < 0.5 and _inlinable(src[j]):
                    style = 'inline'
                    inline -= 1
                    if t == 0 and no and any(_triple(x) == _triple(src[j]) for x in out):
                        t = no          # a word of the user dictionary of the same name comes first
                refs.append((t, j, style, _triple(src[j])))
            e['splits'][s] = refs
        e['styp'] = r.choice('BC') if e['splits'][0] or e['splits'][1] else r.choice('ABC')
    some = [x for e in out for x in e['splits'] if x]
    if 'missing ref' in F and some and r.random() < 0.7:        # one unit is no word there is
        x = list(r.choice(out)['pos'])
        refs = r.choice(some)
        refs[r.randrange(len(refs))] = (0, -1, 'none', r.choice([
            ('U%d' if no else '%d') % (len(out) + r.choice([0, 0, 1, 100])), str(len(system or out) + r.choice([0, 0, 1, 70])),
            ','.join(['無い言葉'] + x + ['ナイ']), ','.join([r.choice(out)['surface'][:9]] + x + ['ナイ']),
            ','.join(['無い'] + ['無い品詞'] * 6 + ['ナイ'])]))
    return out


def _triple(e):
    return (e['surface'], tuple(e['pos']), e['reading'])


def _inlinable(e):
    s = e['surface'] + e['reading'] + ''.join(e['pos'])
    return not any(ch in s for ch in ',/"\\') and len(s) < 200


def _csv(r, F, entries):
    f = io.StringIO()
    w = csv.writer(f, lineterminator='\n')
    for e in entries:
        esc = (lambda s: _esc(r, s)) if 'escapes' in F and r.random() < 0.6 else (lambda s: s)

        def sp(refs):
            if not refs:
                return '*'
            o = []
            for t, j, style, tr in refs:
                if style == 'none':
                    o.append(tr)
                elif style == 'inline':
                    o.append(','.join([tr[0]] + list(tr[1]) + [tr[2]]))
                elif t == 0:
                    o.append(str(j) if entries is not None else '')
                else:
                    o.append('U%d' % j)
            return '/'.join(o)
        head = esc(e['head'])
        if 'bad astral escape' in F:
            head = head.replace('x', '\\u{000078}')
        row = [head, e['lid'], e['rid'], e['cost'], esc(e['surface'])] + e['pos'] + \
              [esc(e['reading']), esc(e['norm']), '*' if e['dform'] < 0 else e['dform'], e['styp']] + [sp(s) for s in e['splits']]
        if not ('18 columns' in F and not e['syn'] and r.random() < 0.7):
            row.append('/'.join(map(str, e['syn'])) if e['syn'] else '*')
        w.writerow(row)
    return f.getvalue()


# ---- reading back (in a child) ----
class Bad(Exception):
    pass


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:80] + '...' + s[-40:] + '(%d)' % len(s)


def eq(what, got, want):
    if got != want:
        raise Bad('%s: %s, the source says %s' % (what, _short(got), _short(want)))


def readback(m, d, order, t0, sample):
    from sudachipy.dictionarylib.binarydictionary import BinaryDictionary
    bd = BinaryDictionary.from_system_dictionary(os.path.join(d, 'system.dic'))
    eq('description', bd.header.description, m.desc)
    eq('creation time', bd.header.create_time, t0)
    n = 0
    g = bd.grammar
    for i in range(m.l):
        for j in range(m.r):
            eq('connection cost %d %d' % (i, j), g.get_connect_cost(i, j), m.matrix.get((i, j), 0))
            n += 1
    entries = m.dicts[0]
    _lex(bd.lexicon, entries)
    eq('number of words', bd.lexicon.size(), len(entries))
    del bd, g
    from sudachipy.dictionary import Dictionary
    cfg = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'inputTextPlugin': [], 'pathRewritePlugin': [],
           'oovProviderPlugin': [{'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': entries[0]['pos'],
                                  'leftId': 0, 'rightId': 0, 'cost': 30000}],
           'userDict': ['user%d.dic' % u for u in order]}
    with open(os.path.join(d, 'sudachi.json'), 'w') as f:
        json.dump(cfg, f)
    for u in order:
        ud = BinaryDictionary.from_user_dictionary(os.path.join(d, 'user%d.dic' % u))
        eq('description of user dictionary', ud.header.description, m.desc)
        _lex(ud.lexicon, m.dicts[u + 1])
    ud = None
    dic = Dictionary(config_path=os.path.join(d, 'sudachi.json'))
    lx, g = dic.lexicon, dic.grammar
    chain = [m.dicts[0]] + [m.dicts[u + 1] for u in order]
    real = [0] + [u + 1 for u in order]
    for k, ents in enumerate(chain):
        for i, e in enumerate(ents):
            wid = k << 28 | i
            what = 'dictionary %d word %d' % (k, i)
            _info(what, lx.get_word_info(wid), e, ents, g)
            eq(what + ' left id', lx.get_left_id(wid), e['lid'])
            eq(what + ' right id', lx.get_right_id(wid), e['rid'])
            eq(what + ' cost', lx.get_cost(wid), e['cost'])
            _splits(what, lx.get_word_info(wid), e, k, real, chain, lx, g)
            n += 1
    tables = [_heads(ents) for ents in chain]
    r = random.Random(sample)
    probes = [(k, i) for k, ents in enumerate(chain) for i in range(len(ents)) if not ents[i]['hidden']]
    for k, i in r.sample(probes, min(len(probes), 60)):
        h = chain[k][i]['head'].encode('utf-8')
        got = sorted(lx.lookup(h, 0))
        want = sorted((kk << 28 | w, ln) for kk, t in enumerate(tables) for ln in t[1] if ln <= len(h)
                      for w in t[0].get(h[:ln], ()))
        eq('lookup of %s' % _short(chain[k][i]['head']), got, want)
        n += 1
    tk = dic.create()
    for k, i in r.sample(probes, min(len(probes), 25)):
        h = chain[k][i]['head']
        if len(h) > 60:
            continue
        for mode in 'CAB':
            try:
                ml = tk.tokenize(h, dump.mode_of(mode))
            except AttributeError as x:
                if 'EOS is not connected' in str(x):
                    continue            # every path is inhibited
                raise
            for mo in ml:
                n += 1
                if mo.is_oov() or mo.dictionary_id() < 0:
                    continue
                wid = mo.word_id()
                dk, di = wid >> 28, wid & 0x0fffffff
                if not (0 <= dk < len(chain) and 0 <= di < len(chain[dk])):
                    raise Bad('%s has word id %s' % (_short(h), wid))
                eq('dictionary id of %s' % _short(h), mo.dictionary_id(), dk)
                e = chain[dk][di]
                eq('part of speech of %s' % _short(h), list(mo.part_of_speech()), e['pos'])
                eq('reading of %s' % _short(h), mo.reading_form(), e['reading'])
                if mode == 'C':
                    eq('surface of %s' % _short(h), mo.surface(), e['head'])
    return n


def _heads(ents):
    t = {}
    for i, e in enumerate(ents):
        if not e['hidden']:
            t.setdefault(e['head'].encode('utf-8'), []).append(i)
    return t, sorted({len(x) for x in t})


def _lex(lx, ents):
    t, lens = _heads(ents)
    for i, e in enumerate(ents):
        h = e['head'].encode('utf-8')
        got = sorted(lx.lookup(h, 0))
        eq('lookup of %s' % _short(e['head']), got, sorted((w, ln) for ln in lens if ln <= len(h) for w in t.get(h[:ln], ())))
        eq('word %d parameters' % i, (lx.get_left_id(i), lx.get_right_id(i), lx.get_cost(i)), (e['lid'], e['rid'], e['cost']))


def _info(what, w, e, ents, g):
    eq(what + ' surface', w.surface, e['surface'])
    eq(what + ' headword length', w.head_word_length, len(e['head'].encode('utf-8')))
    eq(what + ' part of speech', list(g.get_part_of_speech_string(w.pos_id)), e['pos'])
    eq(what + ' normalized form', w.normalized_form, e['norm'])
    eq(what + ' reading', w.reading_form, e['reading'])
    eq(what + ' dictionary form id', w.dictionary_form_word_id, e['dform'])
    eq(what + ' dictionary form', w.dictionary_form, e['surface'] if e['dform'] < 0 else ents[e['dform']]['surface'])
    eq(what + ' synonyms', list(w.synonym_group_ids), e['syn'])


def _splits(what, w, e, k, real, chain, lx, g):
    for name, got, refs in zip(('A', 'B', 'structure'), (w.a_unit_split, w.b_unit_split, w.word_structure), e['splits']):
        eq('%s number of %s units' % (what, name), len(got), len(refs))
        for x, (t, j, style, tr) in zip(got, refs):
            dk, di = x >> 28, x & 0x0fffffff
            wk = 0 if t == 0 else k
            eq('%s %s unit dictionary' % (what, name), dk, wk)
            if style == 'none':
                raise Bad('%s %s unit: there is no such word as %r' % (what, name, tr))
            elif style == 'id':
                eq('%s %s unit' % (what, name), di, j)
            else:
                if di >= len(chain[dk]):
                    raise Bad('%s %s unit: %d of %d' % (what, name, di, len(chain[dk])))
                eq('%s %s unit' % (what, name), _triple(chain[dk][di]), tr)


def check(m, d, order, t0, sample):
    try:
        return {'n': readback(m, d, order, t0, sample)}
    except Bad as e:
        return {'bad': str(e)}


def run(case, ctx):
    m = make(case)
    d = ctx.tmp()
    try:
        return judge(case, ctx, m, d)
    finally:
        ctx.rmtree(d)


def judge(case, ctx, m, d):
    st, lex = {}, []
    for i, t in enumerate(m.csv):
        lex.append([])
        for k, x in enumerate(b.split_rows(t, case.get('parts', 1))):
            lex[i].append(os.path.join(d, 'lex%d%s.csv' % (i, '.%d' % k if k else '')))
            with open(lex[i][k], 'w', encoding='utf-8', newline='') as f:
                f.write(x)
    with open(d + '/matrix.def', 'w', encoding='utf-8') as f:
        f.write(m.matrix_text)
    with open(d + '/char.def', 'w', encoding='utf-8') as f:
        f.write(worlds.DEFAULT_CHARDEF)
    faults = dict((t, f) for t, f in case['faults'])
    log = []
    for t in range(case['nuser'] + 1):
        sysd = d + '/system.dic'
        out = sysd if t == 0 else d + '/user%d.dic' % (t - 1)
        argv = ['build', '-o', out, '-d', m.desc, '-m', d + '/matrix.def'] + lex[0] if t == 0 else \
            ['ubuild', '-o', out, '-d', m.desc, '-s', sysd] + lex[t]
        for attempt in (0, 1):
            f = faults.get(t) if attempt == 0 else None
            r = ctx.fork(b.cli_child, argv, [d + '/'], f['plan'] if f else [], f['caps'] if f else {})
            if r[0] != 'ok':
                return {'viol': {'class': 'the command ends: ' + str(r[0]), 'msg': repr(r)}, 'stats': st}
            r = r[1]
            b.add_fired(st, r['fired'], f['plan'] if f else [])
            log.append([t, r['exit'], r['fired']])
            if r['exit'] == 0:
                if f and r['fired']:
                    st['success in spite of faults'] = st.get('success in spite of faults', 0) + 1
                break
            if f and r['fired']:
                st['failed builds under faults'] = st.get('failed builds under faults', 0) + 1
                continue
            if m.unsure:
                return {'stats': st, 'sig': dump.digest(case), 'nontrivial': False, 'log': dump.digest(log), 'evals': 1}
            return {'viol': {'class': 'a valid source is refused', 'msg': '%s: status %s %s' % (argv[0], r['exit'], r['err'][:500])},
                    'stats': st}
    order = list(range(case['nuser']))
    if case['order']:
        random.Random(case['seed']).shuffle(order)
        order = order[:max(1, len(order) * 2 // 3)]
    r = ctx.fork(check, m, d, order, b.T0, case['seed'])
    if r[0] != 'ok':
        return {'viol': {'class': 'reading back fails: ' + (r[1] if r[0] == 'exc' else str(r[0])), 'msg': str(r[-1])[-2500:]}, 'stats': st}
    if 'bad' in r[1]:
        return {'viol': {'class': 'the dictionary differs from its source', 'msg': r[1]['bad']}, 'stats': st}
    st['user dictionaries'] = case['nuser']
    st['words'] = sum(map(len, m.dicts))
    return {'stats': st, 'sig': dump.digest([case['seed'], case['feats'], case['faults']]), 'nontrivial': True,
            'log': dump.digest([log, r[1]]), 'evals': r[1]['n']}


def shrink(case):
    if case['faults']:
        yield dict(case, faults=[])
    for f in c.drop_chunks(case['faults']):
        yield dict(case, faults=f)
    for f in c.drop_chunks(case['feats']):
        yield dict(case, feats=f)
    for k, small in (('n', 1), ('nuser', 0), ('un', 1)):
        if case[k] > small:
            for v in sorted({small, case[k] // 2, case[k] - 1}):
                fa = [x for x in case['faults'] if k != 'nuser' or x[0] <= v]
                yield dict(case, **{k: v, 'faults': fa})
    if case['order']:
        yield dict(case, order=False)
    if case.get('parts', 1) > 1:
        yield dict(case, parts=1)
