import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.getcwd())
PID = os.getpid()
T = tempfile.mkdtemp(prefix='demo-')
R = os.path.join(os.getcwd(), 'tests', 'resources')


def clean():
    if os.getpid() == PID:
        shutil.rmtree(T, ignore_errors=True)


atexit.register(clean)
PLUGINS = {
    'simple': {"class": "sudachipy.plugin.oov.SimpleOovProviderPlugin", "oovPOS": ["名詞", "普通名詞", "一般", "*", "*", "*"],
               "leftId": 8, "rightId": 8, "cost": 6000},
    'mecab': {"class": "sudachipy.plugin.oov.MeCabOovProviderPlugin", "charDef": "category.def", "unkDef": "unk.def"},
    'numeric': {"class": "sudachipy.plugin.path_rewrite.JoinNumericPlugin", "enableNormalize": True},
    'katakana': {"class": "sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin",
                 "oovPOS": ["名詞", "普通名詞", "一般", "*", "*", "*"], "minLength": 3},
}


CATEGORIES = """DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
SYMBOL 1 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 0 1 0
GREEK 1 1 0
CYRILLIC 1 1 0
"""
NUMERALS = ''.join('\n0x%04X KANJINUMERIC KANJI' % ord(c) for c in '一二三四五六七八九十百千万') + '\n'
with open(os.path.join(R, 'char.def'), encoding='utf-8') as _f:
    CHARDEF = _f.read().rstrip('\n') + NUMERALS


def base():
    """the test resources with dictionaries built by the code in this repository"""
    d = os.path.join(T, 'base')
    if not os.path.isdir(d):
        shutil.copytree(R, d, ignore=lambda _, names: [n for n in names if n.endswith('.dic')])
        for a in (('build', '-o', d + '/system.dic', '-d', 'the system dictionary for the unit tests', '-m', d + '/dict/matrix.def', d + '/dict/lex.csv'),
                  ('ubuild', '-o', d + '/user.dic', '-s', d + '/system.dic', d + '/dict/user.csv')):
            r = cli(*a)
            assert r.returncode == 0, r.stderr
    return d


def world(name, drop=(), files={}, **over):
    """a copy of the test resources with settings of its own"""
    d = os.path.join(T, name)
    shutil.copytree(base(), d)
    files = dict({'category.def': CATEGORIES, 'char.def': CHARDEF}, **files)
    for f, text in files.items():
        with open(os.path.join(d, f), 'w', encoding='utf-8') as w:
            w.write(text)
    p = os.path.join(d, 'sudachi.json')
    with open(p, encoding='utf-8') as f:
        s = json.load(f)
    s.update(over)
    for k in drop:
        s.pop(k, None)
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(s, f)
    return d


def open_(d):
    from sudachipy.dictionary import Dictionary
    return Dictionary(config_path=os.path.join(d, 'sudachi.json'), resource_dir=d)


def mode(m):
    from sudachipy.tokenizer import Tokenizer
    return getattr(Tokenizer.SplitMode, m)


def read(ml):
    return [(m.surface(), tuple(m.part_of_speech()), m.normalized_form(), m.dictionary_form(), m.reading_form(), m.begin(), m.end(),
             m.is_oov(), m.word_id(), m.dictionary_id(), tuple(m.synonym_group_ids())) for m in ml]


def toks(t, text, m='C'):
    return read(t.tokenize(text, mode(m)))


def py(code, *args, env=None, **kw):
    """a fresh process"""
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([os.getcwd(), os.path.dirname(os.path.abspath(__file__))]),
             PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run([sys.executable, '-W', 'ignore', '-c', code, *args], env=e, capture_output=True, timeout=200, **kw)


def cli(*args, env=None, **kw):
    return py('import sys\nsys.argv[0]="sudachipy"\nfrom sudachipy.command_line import main\nmain()', *args, env=env, **kw)


def fail(msg):
    print('BROKEN:', msg)
    sys.stdout.flush()
    clean()
    os._exit(1)
