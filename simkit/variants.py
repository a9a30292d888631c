"""Settings variants of a world: valid ones that differ in every part of the settings, and ones whose opening must fail.
variant(spec, k) is a function of (world, k)."""
import json
import random

from . import worlds

INVALID = ['no system file', 'user as system', 'system as user', 'no char file', 'not json', 'no plugin class', 'no oov',
           'bad oov pos', 'no unk file', 'bad unk file', 'no char key', 'no user file', 'too many users', 'no settings file',
           'bad char file', 'no system module', 'bad lines', 'bad lines', 'no key', 'no pos']
BAD_CHAR = ['0x0030..0x0020 KANJI', '0x0030 NOTHING', '0x', '0x30', 'x\n0xZZ KANJI']       # characters
BAD_CAT = ['NOTHING 0 0 0', 'KANJI 0 0 1', 'USER2 0 1', 'USER2 0 0 x']                  # categories
BAD_UNK = ['KANJI,0,0,0,名詞', 'NOTHING,0,0,0,名詞,普通名詞,一般,*,*,*', 'USER4,0,0,0,名詞,普通名詞,一般,*,*,*',
           'KANJI,x,0,0,名詞,普通名詞,一般,*,*,*', 'KANJI,0,0,0,なし,普通名詞,一般,*,*,*']
N = 40          # variants per world; every third or so is invalid


def char2(spec):
    r = random.Random('char2/%s' % spec.files['char.def'])
    t = spec.files['char.def']
    t += r.choice(['0x6771 KATAKANA\n', '0x4EAC NUMERIC\n', '0x3042..0x3093 KATAKANA\n', '0x0030..0x0039 KANJI\n'])
    t = t.replace('ALPHA 1 1 0', 'ALPHA 1 0 3').replace('SYMBOL 1 1 0', 'SYMBOL 1 0 1')
    return t


def extra_files(spec):
    """files a world directory holds besides spec.files"""
    unk = ''.join(l for l in spec.files['unk.def'].splitlines(True) if not l.startswith(('ALPHA', 'KATAKANA')))
    bad = {'bad.def': 'KANJI 0\n', 'empty.txt': ''}
    for i, line in enumerate(BAD_CHAR):
        bad['badchar%d.def' % i] = spec.files['char.def'] + line + '\n'
    for i, line in enumerate(BAD_CAT):
        bad['badcat%d.def' % i] = spec.files['char.def'] + line + '\n'
    for i, line in enumerate(BAD_UNK):
        bad['badunk%d.def' % i] = spec.files['unk.def'] + line + '\n'
    return dict(bad, **{'char2.def': char2(spec), 'unk2.def': unk})


def settings(spec, k):
    """(text of the settings file or None, kind)"""
    if k == 0:
        return spec.files['sudachi.json'], 'base'
    if k == 100:        # there are words it has no analysis for
        s = dict(spec.settings, oovProviderPlugin=[{'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def',
                                                    'unkDef': 'unk2.def'}])
        s.pop('userDict', None)
        return json.dumps(s, ensure_ascii=False), 'valid'
    r = random.Random('variant/%s/%s' % (spec.files['sudachi.json'], k))
    s = json.loads(json.dumps(spec.settings))
    users = s.get('userDict', [])
    # a valid mutation first
    for _ in range(r.choice([1, 1, 2, 3])):
        m = r.randrange(9)
        if m == 0:
            s['inputTextPlugin'] = [worlds.INPUT[x] for x in r.choice([['default'], ['prolonged'], [], ['default', 'prolonged']])]
        elif m == 1:
            s['pathRewritePlugin'] = []
        elif m == 2:
            s['pathRewritePlugin'] = [{'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': r.random() < 0.5},
                                      {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': worlds.POS[r.choice([0, 2])],
                                       'minLength': r.randrange(0, 6)}]
        elif m == 3:
            s['oovProviderPlugin'] = list(reversed(s['oovProviderPlugin']))
        elif m == 4:
            s['oovProviderPlugin'] = [o for o in s['oovProviderPlugin'] if 'Simple' in o['class']] or s['oovProviderPlugin']
        elif m == 5:
            for o in s['oovProviderPlugin']:
                if 'unkDef' in o:
                    o['unkDef'] = 'unk2.def'
        elif m == 6:
            s['characterDefinitionFile'] = 'char2.def'
        elif m == 7 and users:
            u = list(users)
            r.shuffle(u)
            s['userDict'] = u[:r.randrange(0, len(u) + 1)]
        elif m == 8 and users:
            del s['userDict']
            users = []
    if k % 3:
        return json.dumps(s, ensure_ascii=False), 'valid'
    kind = r.choice(INVALID)
    oov = {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': ['そんな', '品詞', 'は', 'ない', '*', '*'],
           'leftId': 0, 'rightId': 0, 'cost': 100}
    mecab = {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': 'char.def', 'unkDef': 'unk.def'}
    if kind == 'no system file':
        s['systemDict'] = 'nothing.dic'
    elif kind == 'user as system':
        s['systemDict'] = users[0] if users else 'char.def'
    elif kind == 'system as user':
        s['userDict'] = users[:1] + ['system.dic']
    elif kind == 'no char file':
        s['characterDefinitionFile'] = 'nothing.def'
    elif kind == 'not json':
        return '{"systemDict": "system.dic", ', kind
    elif kind == 'no plugin class':
        key = r.choice(['inputTextPlugin', 'oovProviderPlugin', 'pathRewritePlugin'])
        s[key] = s[key] + [{'class': r.choice(['sudachipy.plugin.oov.NoSuchPlugin', 'no_such_module.Plugin', 'sudachipy.plugin.nothing.X'])}]
    elif kind == 'no oov':
        s['oovProviderPlugin'] = []
    elif kind == 'bad oov pos':
        s['oovProviderPlugin'] = [oov]
    elif kind == 'no unk file':
        s['oovProviderPlugin'] = [dict(mecab, unkDef='nothing.def')]
    elif kind == 'bad unk file':
        s['oovProviderPlugin'] = [dict(mecab, unkDef='bad.def')]
    elif kind == 'no char key':
        del s['characterDefinitionFile']
    elif kind == 'no user file':
        s['userDict'] = users + ['nothing.dic']
    elif kind == 'too many users':
        s['userDict'] = ((users or ['system.dic']) * 16)[:16]
    elif kind == 'no settings file':
        return None, kind
    elif kind == 'bad char file':
        s['characterDefinitionFile'] = 'bad.def'
        s['oovProviderPlugin'] = [dict(mecab, charDef='bad.def')]
    elif kind == 'bad lines':
        x = r.randrange(3)
        i = r.randrange(len([BAD_CHAR, BAD_CAT, BAD_UNK][x]))
        if x == 0:
            s['characterDefinitionFile'] = 'badchar%d.def' % i
        elif x == 1:
            s['oovProviderPlugin'] = [dict(mecab, charDef='badcat%d.def' % i)]
        else:
            s['oovProviderPlugin'] = [dict(mecab, unkDef='badunk%d.def' % i)]
    elif kind == 'no key':
        key = r.choice(['charDef', 'unkDef', 'class', 'oovPOS', 'leftId', 'cost'])
        p = dict(mecab if key.endswith('Def') else dict(oov, oovPOS=worlds.POS[0]))
        del p[key]
        s['oovProviderPlugin'] = [p]
    elif kind == 'no pos':
        s['pathRewritePlugin'] = [dict({'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'minLength': 3},
                                       **r.choice([{}, {'oovPOS': ['名詞']}, {'oovPOS': ['そんな', '品詞', 'は', 'ない', '*', '*']}]))]
    elif kind == 'no system module':
        del s['systemDict']
    return json.dumps(s, ensure_ascii=False), kind
