H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


# ---------------------------------------------------------------- C01
bug('b01-cached-normalized', 'C01',
    'a lone numeral whose normalized form is changed, and later the same word as a unit of a longer word or elsewhere',
    'the normalized number is written into the word info that the lexicon caches for all calls, instead of into a node of its own',
    [('sudachipy/plugin/path_rewrite/join_numeric_plugin.py',
      '''            if end - begin > 1 or normalized_form != path[begin].get_word_info().normalized_form:
                self.concatenate(path, begin, end, lattice, normalized_form)
''',
      '''            if end - begin > 1:
                self.concatenate(path, begin, end, lattice, normalized_form)
            else:
                path[begin].get_word_info().normalized_form = normalized_form
''')], '''
from sudachipy.dictionary import Dictionary
rows = open(R + '/dict/lex.csv', encoding='utf-8').read().rstrip('\\n') + '\\n' + \\
    '二月,6,6,1,二月,名詞,固有名詞,地名,一般,*,*,ニガツ,二月,*,C,15/25,*,*,*\\n'
src = os.path.join(T, 'lex.csv')
open(src, 'w', encoding='utf-8').write(rows)
d = world('w', userDict=[])
r = cli('build', '-o', d + '/system.dic', '-m', R + '/dict/matrix.def', src)
assert r.returncode == 0, r.stderr
rows = rows.splitlines()
two = [i for i, x in enumerate(rows) if x.startswith('二,')][0]
def look(warm):
    x = open_(d)
    t = x.create()
    for w in warm:
        t.tokenize(w)
    return x.lexicon.get_word_info(two).normalized_form, toks(t, '二')
if look([])[0] != look(['二', '五'])[0] or look([]) != look(['二月', '二', '二']):
    fail('a call changed the words of the dictionary')
''')

# ---------------------------------------------------------------- C02
bug('b02-shared-parser', 'C02',
    'two threads that both are in the middle of a numeric expression',
    'the numeric parser is kept in the plugin, which all tokenizers of a dictionary share',
    [('sudachipy/plugin/path_rewrite/join_numeric_plugin.py',
      "        self._NUMERIC_POS = ['名詞', '数詞', '*', '*', '*', '*']\n",
      "        self._NUMERIC_POS = ['名詞', '数詞', '*', '*', '*', '*']\n        self._parser = NumericParser()\n"),
     ('sudachipy/plugin/path_rewrite/join_numeric_plugin.py',
      '        parser = NumericParser()\n', '        parser = self._parser\n')], '''
d = world('w')
dic = open_(d)
a, b = dic.create(), dic.create()
want = toks(a, '五二三')
plugin = [p for p in dic.path_rewrite_plugins if type(p).__name__ == 'JoinNumericPlugin'][0]
# another thread comes in after each line of the plugin
import sys
for k in range(1, 60):
    n = [0]
    def other():
        b.tokenize('二三')
    def trace(f, e, arg):
        if not f.f_code.co_filename.endswith('join_numeric_plugin.py') or f.f_code.co_name != 'rewrite':
            return None
        def local(f, e, arg):
            if e == 'line':
                n[0] += 1
                if n[0] == k:
                    th = threading.Thread(target=other)
                    th.start()
                    th.join()
            return local
        return local
    sys.settrace(trace)
    try:
        got = toks(a, '五二三')
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    if got != want:
        fail('another thread changed the answer: %r' % (got,))
''')

bug('b02-lazy-rewrite', 'C02',
    'a thread that tokenizes while another one is loading the rewrite definition in its first call',
    'the rewrite definition is loaded in the first call, and marked as loaded before it is',
    [('sudachipy/plugin/input_text/default_input_text_plugin.py',
      '''        self.read_rewrite_lists(rewrite_def)

    def rewrite(self, builder: InputTextPlugin.Builder) -> None:
''',
      '''        self._rewrite_def = rewrite_def

    def _load(self):
        path, self._rewrite_def = self._rewrite_def, None
        self.read_rewrite_lists(path)

    def rewrite(self, builder: InputTextPlugin.Builder) -> None:
        if getattr(self, '_rewrite_def', None):
            self._load()
''')], '''
d = world('w', userDict=[])
want = toks(open_(d).create(), 'ｱﾞ‐ⅠﾊﾞＡ')
from sudachipy.plugin.input_text.default_input_text_plugin import DefaultInputTextPlugin as P
orig = P.read_rewrite_lists
out = []
def hooked(self, path):
    if dic is not None:
        def other():
            try:
                out.append(toks(dic.create(), 'ｱﾞ‐ⅠﾊﾞＡ'))
            except Exception as e:
                out.append(repr(e))
        th = threading.Thread(target=other)
        th.start()
        th.join(20)
    orig(self, path)
P.read_rewrite_lists = hooked
dic = None
dic2 = open_(d)
dic = dic2
dic.create().tokenize('あ')
if any(x != want for x in out):
    fail('a thread saw half of the rewrite definition')
''')

bug('b02-oov-list', 'C02',
    'two threads inside the OOV provider at the same time',
    'the list of OOV nodes is kept in the provider and reused',
    [('sudachipy/plugin/oov/mecab_oov_plugin.py', '''        nodes = []
        for type_ in''', '''        nodes = self._nodes
        nodes.clear()
        for type_ in'''),
     ('sudachipy/plugin/oov/mecab_oov_plugin.py', '''        self.oov_list = defaultdict(list)
''', '''        self.oov_list = defaultdict(list)
        self._nodes = []
''')], '''
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], files={
    'unk.def': 'HIRAGANA,8,8,4000,名詞,普通名詞,一般,*,*,*\\nKATAKANA,8,8,3900,名詞,普通名詞,一般,*,*,*\\nKANJI,8,8,3900,名詞,普通名詞,一般,*,*,*\\nALPHA,8,8,3900,名詞,普通名詞,一般,*,*,*\\n'})
dic = open_(d)
a, b = dic.create(), dic.create()
want = toks(a, 'アイウカ山川')
for k in range(1, 80):
    n = [0]
    def trace(f, e, arg):
        if not f.f_code.co_filename.endswith('mecab_oov_plugin.py'):
            return None
        def local(f, e, arg):
            n[0] += 1
            if n[0] == k:
                th = threading.Thread(target=lambda: b.tokenize('abcえおエオ海'))
                th.start()
                th.join()
            return local
        return local
    sys.settrace(trace)
    try:
        got = toks(a, 'アイウカ山川')
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    if got != want:
        fail('another thread changed the answer: %r' % (got,))
''')

# ---------------------------------------------------------------- C03
bug('b03-reused-path', 'C03',
    'two calls in mode A or B on one tokenizer, and the result of the first read after the second',
    'the list of nodes of the split path is kept in the tokenizer and reused by the next call',
    [('sudachipy/tokenizer.pyx', '        new_path = []\n', '        new_path = self._new_path\n        new_path.clear()\n'),
     ('sudachipy/tokenizer.pyx', "        self._mode = mode or self.SplitMode.C\n",
      "        self._mode = mode or self.SplitMode.C\n        self._new_path = []\n")], '''
t = open_(world('w')).create()
ml = t.tokenize('東京都に', mode('A'))
a = read(ml)
t.tokenize('京都', mode('B'))
t.tokenize('すだち', mode('A'))
if read(ml) != a:
    fail('a result changed')
''')

bug('b03-split-cache', 'C03',
    'a morpheme that is split in A, then B, or a result whose word info is read again after another user dictionary word was',
    'a morpheme list remembers its last split and returns it also for the other mode',
    [('sudachipy/morphemelist.py', '''            nodes.append(n)

        return MorphemeList(self.input_text, self.grammar, self.lexicon, nodes)
''', '''            nodes.append(n)

        self._splits[index] = MorphemeList(self.input_text, self.grammar, self.lexicon, nodes)
        return self._splits[index]
'''),
     ('sudachipy/morphemelist.py', '''        offset = self.path[index].get_begin()
        nodes = []
''', '''        if index in self._splits:
            return self._splits[index]
        offset = self.path[index].get_begin()
        nodes = []
'''),
     ('sudachipy/morphemelist.py', '        self.path = path\n', '        self.path = path\n        self._splits = {}\n')], '''
d = world('w')
import csv, io
rows = open(R + '/dict/lex.csv', encoding='utf-8').read()
rows = rows.rstrip('\\n') + '\\n' + '東京都に,6,6,1,東京都に,名詞,固有名詞,地名,一般,*,*,トウキョウトニ,東京都に,*,C,6/2,4/8/2,*,*\\n'
src = os.path.join(T, 'lex.csv')
open(src, 'w', encoding='utf-8').write(rows)
r = cli('build', '-o', d + '/system.dic', '-m', R + '/dict/matrix.def', src)
if r.returncode:
    raise SystemExit(0)
def fresh(m):
    ml = open_(d).create().tokenize('東京都に')
    return [read(x.split(mode(m))) for x in ml]
A, B = fresh('A'), fresh('B')
ml = open_(d).create().tokenize('東京都に')
got = [[read(x.split(mode(m))) for x in ml] for m in 'ABAB']
if got != [A, B, A, B]:
    fail('a split depends on what was split before')
''')

# ---------------------------------------------------------------- C04
bug('b04-settings-merge', 'C04',
    'a dictionary opened with settings that leave an optional key out, after one whose settings have it',
    'settings are merged into those of the dictionary opened before: its user dictionaries or plugins come along',
    [('sudachipy/config.py', '''            self.__dict_ = json.load(f)
''', '''            if self.__dict_ is None:
                self.__dict_ = {}
            self.__dict_.update(json.load(f))
''')], '''
a = world('a')
b = world('b', drop=['userDict', 'pathRewritePlugin'])
want = toks(open_(world('c')).create(), 'ぴらる六三')
r = py("import sys; from h import *\\nprint(repr(toks(open_(sys.argv[1]).create(), 'ぴらる六三')))", b)
alone = r.stdout.decode().strip()
open_(a)
try:
    got = repr(toks(open_(b).create(), 'ぴらる六三'))
except Exception as e:
    got = repr(e)
if got != alone:
    fail('settings of the dictionary opened before: %s, alone %s' % (got, alone))
''')

bug('b04-class-attribute', 'C04',
    'a dictionary whose settings turn number normalization off, opened before or while one that does not say is in use',
    'the switch is set on the class of the plugin: all dictionaries of the process get it',
    [('sudachipy/plugin/path_rewrite/join_numeric_plugin.py',
      "            self._enable_normalize = json_obj['enableNormalize']\n",
      "            type(self)._enable_normalize = json_obj['enableNormalize']\n")], '''
off = dict(PLUGINS['numeric'], enableNormalize=False)
dflt = {k: v for k, v in PLUGINS['numeric'].items() if k != 'enableNormalize'}
a = world('a', pathRewritePlugin=[dflt])
b = world('b', pathRewritePlugin=[off])
alone = py("import sys; from h import *\\nprint(repr(toks(open_(sys.argv[1]).create(), '五二三')))", a).stdout.decode().strip()
da = open_(a)
t = da.create()
open_(b)
if repr(toks(t, '五二三')) != alone or repr(toks(open_(a).create(), '五二三')) != alone:
    fail('another dictionary turned normalization off')
''')

# ---------------------------------------------------------------- C05
bug('b05-late-plugins', 'C05',
    'a tokenizer created after, or while, another dictionary with other plugins is opened',
    'each tokenizer makes its own path rewriting plugins, from the settings of the dictionary that is being opened or was opened last',
    [('sudachipy/dictionary.py', '''        return Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, self.path_rewrite_plugins, mode=mode)
''', '''        path_rewrite_plugins = get_path_rewrite_plugins()
        for p in path_rewrite_plugins:
            p.set_up(self.grammar)
        return Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, path_rewrite_plugins, mode=mode)
''')], '''
a = world('a')
b = world('b', pathRewritePlugin=[])
want = toks(open_(a).create(), '五二三')
da = open_(a)
th = threading.Thread(target=lambda: open_(b))
th.start()
th.join()
if toks(da.create(), '五二三') != want:
    fail('plugins of another dictionary')
''')

# ---------------------------------------------------------------- C06
bug('b06-check-writable', 'C06',
    'a build that fails, or is killed, when there was no output file yet, or a crash in between',
    'the output file is created before the build to see that it can be: a failed build leaves an empty file',
    [('sudachipy/command_line.py', '''    _matrix_file_checker(args, print_usage)
    _input_files_checker(args, print_usage)
    header = DictionaryHeader(
        SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
''', '''    _matrix_file_checker(args, print_usage)
    _input_files_checker(args, print_usage)
    with open(args.out_file, 'ab'):
        header = DictionaryHeader(SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
''')], '''
src = os.path.join(T, 'bad.csv')
open(src, 'w', encoding='utf-8').write(open(R + '/dict/lex.csv', encoding='utf-8').read() + 'x,1,1\\n')
out = os.path.join(T, 'out.dic')
r = cli('build', '-o', out, '-m', R + '/dict/matrix.def', src)
if r.returncode == 0:
    fail('a bad source was accepted')
if os.path.exists(out):
    fail('a failed build left an output file of %d bytes' % os.path.getsize(out))
''')

bug('b06-in-place', 'C06',
    'a user dictionary build that fails or is killed while the output is being written',
    'the user dictionary is written in place: the old one is gone when anything goes wrong',
    [('sudachipy/command_line.py', '''        builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
        builder.build(args.in_files, None, wf)
''', '''        builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
    with open(args.out_file, 'wb') as wf:
        wf.write(header.to_bytes())
        builder.build(args.in_files, None, wf)
''')], '''
d = world('w')
out = os.path.join(T, 'user.dic')
r = cli('ubuild', '-o', out, '-s', R + '/system.dic', R + '/dict/user.csv')
assert r.returncode == 0, r.stderr
old = open(out, 'rb').read()
src = os.path.join(T, 'bad.csv')
open(src, 'w', encoding='utf-8').write(open(R + '/dict/user.csv', encoding='utf-8').read() + 'x,1,1\\n')
r = cli('ubuild', '-o', out, '-s', R + '/system.dic', src)
if r.returncode == 0:
    fail('a bad source was accepted')
if open(out, 'rb').read() != old:
    fail('a failed build destroyed the old dictionary')
''')

# ---------------------------------------------------------------- C07
bug('b07-source-error', 'C07',
    'a read error in the middle of a source file',
    'the error is logged and the build goes on with the rows read so far, and reports success',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '''                    '{} at line {} in {}\\n'.format(e.args[0], line_no, lexicon_input_stream.name))
            raise e
''', '''                    '{} at line {} in {}\\n'.format(e.args[0], line_no, lexicon_input_stream.name))
            if isinstance(e, OSError) and line_no >= 0:
                return
            raise e
''')], '''
import builtins, errno, logging
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
import sudachipy.dictionarylib.dictionarybuilder as m
real = builtins.open
class Bad:
    def __init__(self, f):
        self.f, self.n, self.name = f, 0, f.name
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.f.close()
    def __iter__(self):
        return self
    def __next__(self):
        self.n += 1
        if self.n > 10:
            raise OSError(errno.EIO, 'input/output error')
        return next(self.f)
    def __getattr__(self, k):
        return getattr(self.f, k)
m.open = lambda *a, **k: Bad(real(*a, **k))
lg = logging.getLogger('demo')
lg.disabled = True
out = open(os.path.join(T, 'o'), 'wb')
try:
    DictionaryBuilder(logger=lg).build([R + '/dict/lex.csv'], open(R + '/dict/matrix.def', encoding='utf-8'), out)
except OSError:
    raise SystemExit(0)
fail('a read error was taken for the end of the source')
''')

bug('b07-length-128', 'C07',
    'a string of exactly 128 UTF-16 units',
    'the length of 128 is written in one byte, and read back as the first byte of two',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '        if len_ <= self.__BYTE_MAX_VALUE:\n', '        if len_ <= self.__BYTE_MAX_VALUE + 1:\n')], '''
src = os.path.join(T, 'l.csv')
x = 'あ' * 128
open(src, 'w', encoding='utf-8').write('すだ,6,6,2816,%s,名詞,固有名詞,地名,一般,*,*,スダ,すだ,*,A,*,*,*,*\\nた,6,6,2816,た,名詞,固有名詞,地名,一般,*,*,タ,た,*,A,*,*,*,*\\n' % x)
out = os.path.join(T, 'o.dic')
r = cli('build', '-o', out, '-m', R + '/dict/matrix.def', src)
if r.returncode:
    raise SystemExit(0)
from sudachipy.dictionarylib import BinaryDictionary
d = BinaryDictionary.from_system_dictionary(out)
i = d.lexicon.get_word_info(0)
if i.surface != x or i.reading_form != 'スダ':
    fail('read back as %r' % i.surface[:10])
''')

# ---------------------------------------------------------------- C08
bug('b08-locale', 'C08',
    'a build in a process whose locale encoding is not UTF-8',
    'the source is read in the encoding of the locale',
    [('sudachipy/dictionarylib/dictionarybuilder.py', "            with open(path, 'r', encoding='utf-8') as rf:\n", "            with open(path) as rf:\n")], '''
import time
outs = []
for e in ({}, {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}):
    out = os.path.join(T, 'o')
    r = cli('build', '-o', out, '-m', R + '/dict/matrix.def', R + '/dict/lex.csv', env=e)
    outs.append((r.returncode, open(out, 'rb').read()[16:] if r.returncode == 0 else None))
if outs[0] != outs[1]:
    fail('the locale decides: %s' % [x[0] for x in outs])
''')

# ---------------------------------------------------------------- C09
bug('b09-locale', 'C09',
    'a process whose locale encoding is not UTF-8',
    'the definition of unknown words is read in the encoding of the locale',
    [('sudachipy/plugin/oov/mecab_oov_plugin.py', '        with open(unk_def, "r", encoding="utf-8") as f:\n', '        with open(unk_def, errors="replace") as f:\n')], '''
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], userDict=[], files={
    'unk.def': 'KATAKANA,8,8,3900,名詞,固有名詞,地名,一般,*,*\\nALPHA,8,8,3900,名詞,固有名詞,地名,一般,*,*\\n'})
code = """import sys
from h import *
d = open_(sys.argv[1])
print(ascii(toks(d.create(), '\\\\u30a2\\\\u30a4 xyz')))
"""
outs = {py(code, d, env=e).stdout for e in ({}, {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'})}
if len(outs) > 1:
    fail('the locale decides')
''')
