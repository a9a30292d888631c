"""Seeded worlds: lexicon, matrix, user dictionaries, character definitions, settings and a pool of texts.
Everything is a function of (profile, seed).  The dictionaries are then built by the library's own builders."""
import json
import os
import random
import shutil

POS = [
    ['名詞', '普通名詞', '一般', '*', '*', '*'],
    ['名詞', '数詞', '*', '*', '*', '*'],
    ['名詞', '固有名詞', '地名', '一般', '*', '*'],
    ['助詞', '格助詞', '*', '*', '*', '*'],
    ['動詞', '一般', '*', '*', '五段-ラ行', '終止形-一般'],
    ['補助記号', '一般', '*', '*', '*', '*'],
    ['助動詞', '*', '*', '*', '助動詞-タ', '終止形-一般'],
]
DEFAULT_POS = [x.split(',') for x in ['名詞,固有名詞,一般,*,*,*', '名詞,固有名詞,人名,一般,*,*', '名詞,普通名詞,サ変可能,*,*,*', '感動詞,一般,*,*,*,*',
                                      '空白,*,*,*,*,*']]
KANJI = '東京都行府大学院生人日本語中国山川田木林森水火土金月星空海花鳥風春夏秋冬駅車電話機会社員長'
HIRA = 'あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん'
KATA = 'アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲンー'
ALPHA = 'abcdefgxyz'
KNUM = '一二三四五六七八九〇十百千万億'
ODD = '𠮷😀゛é€ßΩДя①㌢ﬁ％！？。、・「」ｱｲｶﾞＡｂ１２'
FULL = 'ＡＢＣｘｙ１２３'

DEFAULT_CHARDEF = """DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
SYMBOL 1 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 0 1 0
GREEK 1 1 0
CYRILLIC 1 1 0
USER1 1 1 1
0x0020 SPACE
0x000D SPACE
0x3000 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x003A..0x0040 SYMBOL
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x00C0..0x00FF ALPHA
0x0391..0x03C9 GREEK
0x0400..0x045F CYRILLIC
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC KATAKANA HIRAGANA NOOOVBOW
0x30A1 NOOOVBOW
0x30E3 NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC
0x4E8C KANJINUMERIC
0x4E09 KANJINUMERIC
0x56DB KANJINUMERIC
0x4E94 KANJINUMERIC
0x5341 KANJINUMERIC
0x767E KANJINUMERIC
0x5343 KANJINUMERIC
0x4E07 KANJINUMERIC
0x3007 SYMBOL KANJINUMERIC
0x20000..0x2A6DF KANJI
"""

INPUT = {'default': {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'},
         'prolonged': {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
                       'prolongedSoundMarks': ['ー', '-', '⁓', '〜', '〰'], 'replacementSymbol': 'ー'}}


class Spec:
    """files: {name: text}; users: list of user csv names; texts: list of str; settings: dict"""

    def __init__(self):
        self.files = {}
        self.users = []
        self.texts = []
        self.settings = {}
        self.desc = ''
        self.heads = []


def _word(r, alphabets=None):
    a = r.choice(alphabets or [KANJI, KANJI, HIRA, KATA, ALPHA])
    return ''.join(r.choice(a) for _ in range(r.choice([1, 1, 2, 2, 2, 3, 4])))


def _row(head, lid, rid, cost, surface, pos, reading, norm, dform, styp, a, b, c, syn):
    def q(x):
        x = str(x)
        return '"' + x.replace('"', '""') + '"' if any(ch in x for ch in ',"\n') else x
    return ','.join(q(x) for x in [head, lid, rid, cost, surface] + pos + [reading, norm, dform, styp, a, b, c, syn])


def _entries(r, n, nid, zero, maxcost, pos_pool, seed_words=()):
    """first pass: simple words; returns list of dicts"""
    out = []
    seen = list(seed_words)
    for _ in range(n):
        k = r.random()
        if seen and k < 0.12:
            head = r.choice(seen)                       # homograph
        elif len(seen) > 2 and k < 0.4:
            head = r.choice(seen) + r.choice(seen)      # compound
            if len(head) > 12:
                head = head[:12]
        else:
            head = _word(r)
        seen.append(head)
        lid, rid = r.randrange(nid), r.randrange(nid)
        cost = 0 if zero else r.randrange(-maxcost // 10, maxcost)
        surface = head if r.random() < 0.9 else head + r.choice('xyzﾞー')
        reading = r.choice(['', surface, _word(r, [KATA]), _word(r, [KATA])]) or surface
        norm = r.choice([surface, surface, _word(r)])
        syn = '*' if r.random() < 0.7 else '/'.join(str(r.randrange(1, 99999)) for _ in range(r.randrange(1, 4)))
        e = dict(head=head, lid=lid, rid=rid, cost=cost, surface=surface, pos=r.choice(pos_pool), reading=reading,
                 norm=norm, dform='*', styp='A', a='*', b='*', c='*', syn=syn)
        out.append(e)
    return out


def _compounds(r, entries, ref):
    """give some entries splits whose parts' head lengths add up to theirs"""
    by = {}
    for i, e in enumerate(entries):
        by.setdefault(e['head'], []).append(i)
    heads = list(by)
    n = 0
    for i, e in enumerate(list(entries)):
        h = e['head']
        if len(h) < 2 or r.random() < 0.35:
            continue
        cuts = [k for k in range(1, len(h)) if h[:k] in by and h[k:] in by]
        if not cuts:
            continue
        k = r.choice(cuts)
        parts = [r.choice(by[h[:k]]), r.choice(by[h[k:]])]
        if i in parts:
            continue
        e['a'] = '/'.join(ref(p) for p in parts)
        e['b'] = r.choice(['*', e['a']])
        e['c'] = r.choice(['*', e['a']])
        e['styp'] = r.choice('BC')
        n += 1
    # make sure there are a few real compounds
    while n < 4 and len(heads) > 3:
        p, q = r.sample(heads, 2)
        if len(p + q) > 14:
            n += 1
            continue
        i, j = r.choice(by[p]), r.choice(by[q])
        base = entries[i]
        e = dict(base, head=p + q, surface=p + q, reading='ヨミ', norm=p + q, styp='C',
                 a=ref(i) + '/' + ref(j), b=r.choice(['*', ref(i) + '/' + ref(j)]), c='*',
                 cost=base['cost'] - abs(base['cost']) - 3000 if base['cost'] else 0)
        e['cost'] = max(-20000, e['cost'])
        entries.append(e)
        n += 1


def _dforms(r, entries):
    for i, e in enumerate(entries):
        if i and r.random() < 0.2:
            j = r.randrange(i)      # always backwards: no cycles
            if entries[j]['dform'] == '*':
                e['dform'] = str(j)
    # sometimes a forward reference to a word without a reference of its own
    for i, e in enumerate(entries):
        if e['dform'] == '*' and r.random() < 0.05:
            j = r.randrange(len(entries))
            if entries[j]['dform'] == '*' and j != i and not any(x['dform'] == str(i) for x in entries):
                e['dform'] = str(j)


def csv_of(entries):
    return ''.join(_row(e['head'], e['lid'], e['rid'], e['cost'], e['surface'], e['pos'], e['reading'], e['norm'],
                        e['dform'], e['styp'], e['a'], e['b'], e['c'], e['syn']) + '\n' for e in entries)


def make(profile, seed):
    r = random.Random('world/%s/%s' % (profile, seed))
    s = Spec()
    s.desc = r.choice(['', 'test world %s' % seed, '説明' * r.randrange(1, 40)])
    zero = profile == 'ties'
    nid = r.choice([2, 3, 5, 8]) if profile != 'big' else 8
    inhibited = r.random() < 0.6 and not zero
    n = {'big': 1500, 'tiny': 8}.get(profile, r.randrange(20, 60))
    maxcost = r.choice([100, 3000, 12000])
    seedw = ['東', '京', '都', '1', '２', 'に', 'た', 'カ', 'ラ', 'a', ',', '.', '東京', '五', '百'] if profile != 'tiny' else ['東', 'a']
    ents = _entries(r, n, nid, zero, maxcost, POS, seedw)
    # some words every world has
    for h, p in [('東', 0), ('京', 0), ('都', 0), ('東京', 2), ('に', 3), ('た', 6), ('。', 5)]:
        ents.append(dict(head=h, lid=r.randrange(nid), rid=r.randrange(nid), cost=0 if zero else r.randrange(500, 5000),
                         surface=h, pos=POS[p], reading='ヨミ' + h, norm=h, dform='*', styp='A', a='*', b='*', c='*',
                         syn=r.choice(['*', '3', '7/8'])))
    if r.random() < 0.75:
        for ch in '0123456789':
            ents.append(dict(head=ch, lid=nid - 1, rid=nid - 1, cost=0 if zero else 2000, surface=ch, pos=POS[1],
                             reading='スウ', norm=ch, dform='*', styp='A', a='*', b='*', c='*', syn='*'))
        for ch in '一二三五十百万':
            ents.append(dict(head=ch, lid=nid - 1, rid=nid - 1, cost=0 if zero else 2000, surface=ch, pos=POS[1],
                             reading='スウ', norm=ch, dform='*', styp='A', a='*', b='*', c='*', syn='*'))
        for ch in ',.':
            ents.append(dict(head=ch, lid=nid - 1, rid=nid - 1, cost=0 if zero else 1500, surface=ch, pos=POS[5],
                             reading='キゴウ', norm=ch, dform='*', styp='A', a='*', b='*', c='*', syn='*'))
    _compounds(r, ents, lambda i: str(i))
    _dforms(r, ents)
    # words without index entry, reachable through splits and forms only
    if r.random() < 0.5 and profile != 'tiny':
        for _ in range(2):
            ents.append(dict(head=_word(r), lid=-1, rid=-1, cost=0, surface=_word(r), pos=r.choice(POS), reading='カクシ',
                             norm='隠し', dform='*', styp='A', a='*', b='*', c='*', syn='*'))
    if profile == 'default':
        for p in DEFAULT_POS:
            ents.append(dict(head=_word(r), lid=0, rid=0, cost=3000, surface=_word(r), pos=p, reading='ヨミ', norm='品詞', dform='*',
                             styp='A', a='*', b='*', c='*', syn='*'))
    s.files['lex.csv'] = csv_of(ents)
    m = ['%d %d' % (nid, nid)]
    for i in range(nid):
        for j in range(nid):
            if zero:
                c = 0
            elif inhibited and r.random() < 0.12 and i and j:
                c = 32767
            else:
                c = r.randrange(-2000, 4000)
            m.append('%d %d %d' % (i, j, c))
    s.files['matrix.def'] = '\n'.join(m) + '\n'

    chardef = DEFAULT_CHARDEF
    if r.random() < 0.4:
        extra = r.choice(['0x3042..0x304A HIRAGANA USER1', '0x6771 KANJI USER1', '0x0061..0x0063 NUMERIC ALPHA',
                          '0x30AB..0x30AF KATAKANA KANJI', '0x1F600 SYMBOL KATAKANA'])
        chardef += extra + '\n'
    if r.random() < 0.4:
        chardef = chardef.replace('KANJI 0 0 2', 'KANJI %d %d %d' % (r.randrange(2), r.randrange(2), r.randrange(4))) \
            .replace('HIRAGANA 0 1 2\n', 'HIRAGANA %d %d %d\n' % (r.randrange(2), r.randrange(2), r.randrange(4)))
    s.files['char.def'] = chardef
    unk = []
    for cat in ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC',
                'GREEK', 'CYRILLIC', 'USER1']:
        for _ in range(r.choice([1, 1, 2, 3])):
            if cat != 'DEFAULT' and r.random() < 0.1:
                continue
            unk.append('%s,%d,%d,%d,%s' % (cat, r.randrange(nid), r.randrange(nid), 0 if zero else r.randrange(2000, 15000),
                                           ','.join(POS[1] if 'NUMERIC' in cat else r.choice(POS))))
    s.files['unk.def'] = '\n'.join(unk) + '\n'

    # user dictionaries
    nuser = {'users': r.randrange(7, 16), 'tiny': 0, 'nouser': 0, 'default': 0}.get(profile, r.choice([0, 0, 1, 1, 2, 3]))
    for u in range(nuser):
        own = [['ユーザ%d' % u, '品詞%d' % k, '*', '*', '*', '*'] for k in range(r.randrange(0, 4))]
        pool = POS + own * 3
        ue = _entries(r, r.randrange(1, 10), nid, zero, maxcost, pool, ['東', 'ユ', 'u%d' % u])
        for e in ue:
            if r.random() < 0.4 and not zero and not inhibited:
                e['cost'] = -32768      # automatic cost
        if u % 2 == 0:
            base = ['東', '京']
            for h in base:
                ue.append(dict(head=h, lid=0, rid=0, cost=r.choice([0, 2000]), surface=h, pos=r.choice(pool), reading='ユーザ',
                               norm=h, dform='*', styp='A', a='*', b='*', c='*', syn='*'))
            i, j = len(ue) - 2, len(ue) - 1
            sysi = next(k for k, e in enumerate(ents) if e['head'] == '京')
            styles = ['U%d/U%d' % (i, j), 'U%d/%d' % (i, sysi)]
            if ue[i]['surface'] not in [e['surface'] for e in ue[:i]]:
                styles.append('%s,%s,%s/U%d' % ('東', ','.join(ue[i]['pos']), 'ユーザ', j))
            ue.append(dict(head='東京', lid=0, rid=0, cost=-3000 if not zero else 0, surface='東京', pos=r.choice(pool),
                           reading='ユーザトウキョウ', norm='東京u', dform=r.choice(['*', str(i)]), styp='C', a=r.choice(styles),
                           b=r.choice(['*', styles[0]]), c='*', syn=r.choice(['*', '1/2/3'])))
        ue.append(dict(head='利用者%d' % u, lid=0, rid=0, cost=r.choice([0, -32768]) if not zero and not inhibited else 0,
                       surface='利用者%d' % u, pos=r.choice(pool), reading='リヨウシャ', norm='利用者', dform='*',
                       styp='A', a='*', b='*', c='*', syn='*'))
        name = 'user%d.csv' % u
        s.files[name] = csv_of(ue)
        s.users.append(name)
        s.heads += [e['head'] for e in ue]

    # settings
    order = r.choice([['default', 'prolonged'], ['default'], ['prolonged', 'default'], ['prolonged'], []])
    if profile == 'ties':
        order = ['default']
    ip = []
    for k in order:
        o = dict(INPUT[k])
        if k == 'prolonged' and r.random() < 0.4:
            o['replacementSymbol'] = r.choice(['〜', 'x', 'ー'])
            o['prolongedSoundMarks'] = r.choice([['ー', '〜'], ['-', '!'], ['ー', '-', '⁓', '〜', '〰']])
        ip.append(o)
    mecab = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
    simple = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': r.choice(POS[:3] + POS[5:6]),
              'leftId': r.randrange(nid), 'rightId': r.randrange(nid), 'cost': 0 if zero else r.randrange(1000, 9000)}
    oov = r.choice([[mecab, simple], [mecab, simple], [simple], [mecab]])
    if profile == 'ties':
        oov = [mecab, simple]
    pr = []
    if r.random() < 0.75:
        pr.append({'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': r.random() < 0.7})
    if r.random() < 0.75:
        pr.append({'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': r.choice(POS[:3]),
                   'minLength': r.randrange(0, 5)})
    s.settings = {'systemDict': 'system.dic', 'characterDefinitionFile': 'char.def', 'inputTextPlugin': ip,
                  'oovProviderPlugin': oov, 'pathRewritePlugin': pr}
    if s.users:
        s.settings['userDict'] = [u[:-4] + '.dic' for u in s.users]
    s.files['sudachi.json'] = json.dumps(s.settings, ensure_ascii=False, indent=1)
    s.heads += [e['head'] for e in ents]
    s.texts = texts(random.Random('texts/%s/%s' % (profile, seed)), s.heads)
    return s


def text(r, heads):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        k = r.random()
        if k < 0.5:
            parts.append(r.choice(heads))
        elif k < 0.58:
            parts.append(''.join(r.choice('0123456789') for _ in range(r.randrange(1, 6))))
        elif k < 0.64:
            parts.append(r.choice(['1,234', '12,34', '1.5', '3.', '.5', '1,', '1,000,000', '二十三', '一.五', '千万', '5百', '1.2.3', '〇', '0.5', '00', '二〇〇', '0,000',
                                   '3.0', '百円', '１.５', '万', '2.5万', '1,23', '三.']))
        elif k < 0.72:
            parts.append(''.join(r.choice(KATA) for _ in range(r.randrange(1, 6))))
        elif k < 0.78:
            parts.append(''.join(r.choice(ALPHA + 'ABC') for _ in range(r.randrange(1, 6))))
        elif k < 0.84:
            parts.append(r.choice(ODD) * r.choice([1, 1, 2]))
        elif k < 0.9:
            parts.append(''.join(r.choice(HIRA) for _ in range(r.randrange(1, 4))))
        elif k < 0.94:
            parts.append(r.choice(['ーー', 'ラーーメン', 'あ〜〜', '---', 'アアアー', '\u3000', ' ', '  x', 'ｶﾞﾊﾟ', 'か゛', 'ΟΔΟΣ', 'Ⅲ', '㍻', 'カ゛ー']))
        else:
            parts.append(''.join(r.choice(KANJI) for _ in range(r.randrange(1, 4))))
    return ''.join(parts)


def texts(r, heads):
    out = ['', '東京都に', '東京', '東', '12,345円に', 'ラーメンカラ']
    out += [text(r, heads) for _ in range(26)]
    # one of every kind that is short, a few long ones
    out.append(''.join(text(r, heads) for _ in range(12)))
    out.append('東京' * 40)
    out.append(''.join(r.choice(heads) for _ in range(60))[:200])
    return out


def write(spec, d):
    os.makedirs(d, exist_ok=True)
    for n, t in spec.files.items():
        with open(os.path.join(d, n), 'w', encoding='utf-8') as f:
            f.write(t)


def cli(argv):
    """Runs the library's command line in this process (call in a forked child)."""
    import sys
    from sudachipy import command_line
    sys.argv = ['sudachipy'] + argv
    command_line.main()


def build(spec, d, fork):
    """Builds the dictionaries with the command line of the library under test, each in a process of its own."""
    p = lambda n: os.path.join(d, n)

    def one(argv):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        cli(argv)
    jobs = [['build', '-o', p('system.dic'), '-d', spec.desc, '-m', p('matrix.def'), p('lex.csv')]]
    for u in spec.users:
        jobs.append(['ubuild', '-o', p(u[:-4] + '.dic'), '-d', spec.desc, '-s', p('system.dic'), p(u)])
    for j in jobs:
        r = fork(one, j)
        if r[0] != 'ok':
            return 'building %s failed: %r' % (os.path.basename(j[2]), r)
    return None


class World:
    def __init__(self, profile, seed, d):
        self.profile, self.seed, self.dir = profile, seed, d
        self.spec = make(profile, seed)
        self.texts = self.spec.texts
        self.config = os.path.join(d, 'sudachi.json')

    @property
    def key(self):
        return '%s/%s' % (self.profile, self.seed)

    def variant(self, k, how='plain'):
        """keyword arguments of Dictionary for settings variant k"""
        from . import variants
        if not os.path.exists(os.path.join(self.dir, 'char2.def')):
            for n, t in variants.extra_files(self.spec).items():
                with open(os.path.join(self.dir, n), 'w', encoding='utf-8') as f:
                    f.write(t)
            os.makedirs(os.path.join(self.dir, 'cfg'))
        p = os.path.join(self.dir, 'cfg' if how == 'resdir' else '', 'variant-%d.json' % k)
        text, _ = variants.settings(self.spec, k)
        if text is not None and not os.path.exists(p):
            with open(p, 'w', encoding='utf-8') as f:
                f.write(text)
        if how == 'resdir':
            return {'config_path': p, 'resource_dir': self.dir}
        if how.startswith('type '):
            return {'config_path': p, 'dict_type': how[5:]}
        return {'config_path': p}

    def copy_to(self, d):
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(self.dir, d)
        return d

    def dicts(self):
        return ['system.dic'] + [u[:-4] + '.dic' for u in self.spec.users]
