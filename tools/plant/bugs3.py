H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


NUM = 'sudachipy/plugin/path_rewrite/join_numeric_plugin.py'
# ---------------------------------------------------------------- C01
bug('b01-id-text', 'C01',
    'two different texts, of which the second lies at the address of the first one, which is gone',
    'the categories of the characters of a text are kept for the next call on the same text, which is recognized by its id()',
    [('sudachipy/utf8inputtextbuilder.py', '''        char_categories = self.get_char_category_types(modified_string_text)
''', '''        char_categories = self._char_categories(modified_string_text)
'''), ('sudachipy/utf8inputtextbuilder.py', '''    def get_char_category_types(self, text):
''', '''    def _char_categories(self, text):
        known = self._known.get(self.grammar)
        if known is None or known[0] != (id(text), len(text)):
            known = ((id(text), len(text)), self.get_char_category_types(text))
            self._known[self.grammar] = known
        return known[1]

    def get_char_category_types(self, text):
'''), ('sudachipy/utf8inputtextbuilder.py', '''class UTF8InputTextBuilder:
''', '''class UTF8InputTextBuilder:
    _known = weakref.WeakKeyDictionary()

'''), ('sudachipy/utf8inputtextbuilder.py', '''from . import utf8inputtext
''', '''import weakref

from . import utf8inputtext
''')], '''
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], files={
    'unk.def': ''.join('%s,8,8,3900,名詞,普通名詞,一般,*,*,*\\n' % x for x in ('HIRAGANA', 'KATAKANA', 'KANJI', 'ALPHA'))})
want = {}
for x in ('アイウエ', 'あ東いう', '東京都に', 'えアあア'):
    want[x] = toks(open_(d).create(), x)
t = open_(d).create()
for k in range(200):
    for x in want:
        if toks(t, ''.join(list(x))) != want[x]:
            fail('%r is analysed as another text' % x)
''')

# ---------------------------------------------------------------- C02

bug('b02-last-info', 'C02',
    'two threads that read word infos at the same time',
    'the last word info read is kept in two steps, word id first: another thread that reads the same word in between gets the info of the word before',
    [('sudachipy/dictionarylib/doublearraylexicon.py', '''        return self.word_infos.get_word_info(word_id)
''', '''        if word_id != self._last_id:
            self._last_id = word_id
            self._last_info = self.word_infos.get_word_info(word_id)
        return copy.copy(self._last_info)
'''), ('sudachipy/dictionarylib/doublearraylexicon.py', '''    trie = None
''', '''    _last_id = None
    _last_info = None
    trie = None
'''), ('sudachipy/dictionarylib/doublearraylexicon.py', '''import mmap

''', '''import copy
import mmap

''')], '''
d = world('w', userDict=[])
want = toks(open_(d).create(), '東京都に')
dic = open_(d)
t, u = dic.create(), dic.create()
# another thread goes ahead while this one reads
from sudachipy.dictionarylib.wordinfolist import WordInfoList
orig = WordInfoList.get_word_info
out = []
def hooked(self, wid):
    if threading.current_thread() is threading.main_thread():
        def other():
            try:
                out.append(read(u.tokenize('東京都に', mode('C'))))
            except Exception as e:
                out.append(repr(e))
        th = threading.Thread(target=other)
        th.start()
        th.join(20)
    return orig(self, wid)
WordInfoList.get_word_info = hooked
got = toks(t, '東京都に')
if got != want or any(x != want for x in out):
    fail('one thread got the words of another')
''')

# ---------------------------------------------------------------- C03
bug('b03-end-lists', 'C03',
    'a result that is read, or split, after a later call that was longer or shorter',
    'the offsets of the input text are kept in a list of the grammar that the next call fills again',
    [('sudachipy/utf8inputtextbuilder.py', '''        offsets = [0 for i in range(length + 1)]
''', '''        offsets = self.grammar.__dict__.setdefault('_offsets', [])
        offsets[:] = [0 for i in range(length + 1)]
''')], '''
t = open_(world('w')).create()
ml = t.tokenize('東京都に行く')
a = read(ml)
t.tokenize('に')
try:
    b = read(ml)
except Exception as e:
    b = repr(e)
t.tokenize('ａｂ東京都東京都東京都')
try:
    c = read(ml)
except Exception as e:
    c = repr(e)
if b != a or c != a:
    fail('a result changed')
''')

bug('b03-iter-same', 'C03',
    'two morphemes of one iteration over a result, of which the first is read after the second was reached',
    'iterating over a result moves one morpheme along instead of making one for each word',
    [('sudachipy/morphemelist.py', '''        for index in range(len(self.path)):
            yield morpheme.Morpheme(self, index)
        return
''', '''        current = morpheme.Morpheme(self, 0)
        for current.index in range(len(self.path)):
            current.word_info = None
            yield current
''')], '''
ml = open_(world('w')).create().tokenize('東京都に行く')
a = [m.surface() for m in ml]
b = [m.surface() for m in list(ml)]
if a != b:
    fail('a morpheme changed: %r %r' % (a, b))
''')

# ---------------------------------------------------------------- C04
bug('b04-id-cache', 'C04',
    'a dictionary that is opened after another one was dropped, and whose word id table lies at the same address',
    'the word ids found are kept in a table by the id() of the dictionary part they belong to',
    [('sudachipy/dictionarylib/wordidtable.py', '''        result = struct.unpack_from("<{}I".format(length), self._bytes_view, index + 1)
        return result
''', '''        key = id(self), index
        result = _known.get(key)
        if result is None:
            if len(_known) > 4096:
                _known.clear()
            result = _known[key] = struct.unpack_from("<{}I".format(length), self._bytes_view, index + 1)
        return result
'''), ('sudachipy/dictionarylib/wordidtable.py', '''class WordIdTable(object):
''', '''_known = {}


class WordIdTable(object):
''')], '''
import gc
src = os.path.join(T, 'lex.csv')
rows = open(R + '/dict/lex.csv', encoding='utf-8').read().splitlines()
open(src, 'w', encoding='utf-8').write('新語,6,6,2816,新語,名詞,固有名詞,地名,一般,*,*,シンゴ,新語,*,A,*,*,*,*\\n' * 2 + '\\n'.join(r for r in rows if '*/' not in r) + '\\n')
a, b = world('a', userDict=[]), world('b', userDict=[])
r = cli('build', '-o', b + '/system.dic', '-m', R + '/dict/matrix.def', src)
assert r.returncode == 0, r.stderr
code = "import sys; from h import *\\nprint(repr(toks(open_(sys.argv[1]).create(), '東京都に')))"
want = {x: py(code, x).stdout.decode().strip() for x in (a, b)}
for k in range(60):
    for x in (a, b):
        dic = open_(x)
        got = repr(toks(dic.create(), '東京都に'))
        dic.close()
        del dic
        gc.collect()
        if got != want[x]:
            fail('words of a dictionary that was dropped: %.200s' % got)
''')

# ---------------------------------------------------------------- C05
bug('b05-memo-settings', 'C05',
    'a thread that opens a dictionary of another type while one is being opened, or after it',
    'the place of the installed dictionary is looked up once and for all types',
    [('sudachipy/config.py', '''def find_dict_path(dict_type='core'):
    is_installed''', '''def find_dict_path(dict_type='core', _found={}):
    if not _found:
        _found['path'] = _find_dict_path(dict_type)
    return _found['path']


def _find_dict_path(dict_type):
    is_installed''')], '''
pk = os.path.join(T, 'pk')
a, b = world('a', userDict=[], drop=['systemDict']), world('b', userDict=[])
src = os.path.join(T, 'lex.csv')
rows = open(R + '/dict/lex.csv', encoding='utf-8').read().splitlines()
open(src, 'w', encoding='utf-8').write('東京都,6,6,-9000,東京都,名詞,固有名詞,地名,一般,*,*,シンゴ,新語,*,A,*,*,*,*\\n' + '\\n'.join(r for r in rows if '*/' not in r) + '\\n')
r = cli('build', '-o', b + '/system.dic', '-m', R + '/dict/matrix.def', src)
assert r.returncode == 0, r.stderr
for n, w in ('core', world('c', userDict=[])), ('small', b):
    os.makedirs(pk + '/sudachidict_%s/resources' % n)
    open(pk + '/sudachidict_%s/__init__.py' % n, 'w').close()
    shutil.copy(w + '/system.dic', pk + '/sudachidict_%s/resources' % n)
sys.path.insert(0, pk)
from sudachipy.dictionary import Dictionary
out = {}
def one(k, ty):
    out[k] = toks(Dictionary(config_path=a + '/sudachi.json', resource_dir=a, dict_type=ty).create(), '東京都に')
for k, ty in enumerate(('core', 'small')):
    th = threading.Thread(target=one, args=(k, ty))
    th.start()
    th.join()
if out[0] == out[1]:
    fail('both threads got the same dictionary')
''')

# ---------------------------------------------------------------- C08
bug('b08-split-memo', 'C08',
    'two builds in one process of sources that refer to units in the same words',
    'references to units are resolved once per process: the second build gets the word ids of the first',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '''                ids.append(self.word_to_id(word))
''', '''                if (self.is_user_dictionary, word) not in self.__resolved:
                    self.__resolved[self.is_user_dictionary, word] = self.word_to_id(word)
                ids.append(self.__resolved[self.is_user_dictionary, word])
'''), ('sudachipy/dictionarylib/dictionarybuilder.py', '''    is_user_dictionary = False

    class WordEntry''', '''    is_user_dictionary = False
    __resolved = {}

    class WordEntry''')], '''
import io
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
U = '名詞,固有名詞,地名,一般,*,*'
rows = ['甲,6,6,1,甲,%s,コウ,甲,*,A,*,*,*,*' % U, '乙,6,6,1,乙,%s,オツ,乙,*,A,*,*,*,*' % U,
        '甲乙,6,6,1,甲乙,%s,コウオツ,甲乙,*,C,"甲,%s,コウ/乙,%s,オツ",*,*,*' % (U, U, U)]
def build(rs):
    src = os.path.join(T, 'l.csv')
    open(src, 'w', encoding='utf-8').write('\\n'.join(rs) + '\\n')
    out = io.BytesIO()
    DictionaryBuilder().build([src], io.StringIO('10 10\\n'), out)
    return out.getvalue()
src2 = [rows[1], rows[0], rows[2]]
import contextlib
with contextlib.redirect_stderr(io.StringIO()):
    pid = os.fork()
    if pid == 0:
        open(os.path.join(T, 'alone'), 'wb').write(build(src2))
        os._exit(0)
    os.waitpid(pid, 0)
    build(rows)
    got = build(src2)
if got != open(os.path.join(T, 'alone'), 'rb').read():
    fail('a build depends on the one before')
''')

bug('b08-time-twice', 'C08',
    'a build during which the clock moves',
    'the time of creation is also part of the padding behind the description',
    [('sudachipy/command_line.py', '''    header = DictionaryHeader(
        SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
''', '''    header = DictionaryHeader(
        SYSTEM_DICT_VERSION_2, int(time.time()), args.description or 'built at {}'.format(time.ctime()))
''')], '''
outs = []
for k in 0, 1:
    out = os.path.join(T, 'o')
    r = cli('build', '-o', out, '-m', R + '/dict/matrix.def', R + '/dict/lex.csv')
    assert r.returncode == 0, r.stderr
    outs.append(open(out, 'rb').read()[16:])
    import time
    time.sleep(1.2)
if outs[0] != outs[1]:
    fail('the time is part of the dictionary')
''')

# ---------------------------------------------------------------- C09
bug('b09-assert', 'C09',
    'an interpreter that runs with -O',
    'the rewrite rules are entered within an assert statement',
    [('sudachipy/plugin/input_text/default_input_text_plugin.py', '''                    self.replace_char_map[cols[0]] = cols[1]
''', '''                    assert self.replace_char_map.setdefault(cols[0], cols[1]) == cols[1]
''')], '''
d = world('w', userDict=[])
code = """import sys
from h import *
d = open_(sys.argv[1])
print(ascii(toks(d.create(), 'ウ゛う゛ｳﾞカ゛')))
"""
outs = {py(code, d, env=e).stdout for e in ({}, {'PYTHONOPTIMIZE': '1'})}
if len(outs) > 1:
    fail('the interpreter decides')
''')

bug('b09-stat-order', 'C09',
    'user dictionaries whose files were written in another order, or a process with another working directory',
    'relative paths are tried in the working directory first',
    [('sudachipy/config.py', '''    else:
        return os.path.join(resource_dir, dict_path)
''', '''    elif os.path.exists(dict_path):
        return os.path.abspath(dict_path)
    else:
        return os.path.join(resource_dir, dict_path)
''')], '''
a, b = world('a', userDict=['user.dic']), world('b', userDict=[])
open(b + '/user.dic', 'wb').write(b'nothing')
os.remove(b + '/system.dic')
code = """import sys
from h import *
d = open_(sys.argv[1])
print(ascii(toks(d.create(), 'ぴらる')))
"""
outs = set()
for x in (T, a, b):
    q = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys, os\\nsys.path.insert(0, %r)\\nsys.path.insert(0, %r)\\nroot = os.getcwd()\\nos.chdir(%r)\\nimport sudachipy.dictionary as sd\\ntry:\\n d = sd.Dictionary(config_path=%r, resource_dir=%r)\\n print(ascii([m.surface() for m in d.create().tokenize("ぴらる")]))\\nexcept Exception as e:\\n print(type(e))' % (
        os.getcwd(), os.getcwd(), x, a + '/sudachi.json', a)], capture_output=True, timeout=100)
    outs.add(q.stdout)
if len(outs) > 1:
    fail('the working directory decides: %r' % outs)
''')

# ---------------------------------------------------------------- C10
bug('b10-close-quiet', 'C10',
    'a file system that reports a write error when the output file is closed',
    'an error in closing the output file is ignored, and the status is 0',
    [('sudachipy/command_line.py', '''    finally:
        if args.fpath_out:
            output.close()
''', '''    finally:
        if args.fpath_out:
            with contextlib.suppress(OSError):
                output.close()
''')], '''
import builtins, errno, io
d = world('w')
real = builtins.open
out = os.path.join(T, 'out')
class Raw(io.FileIO):
    def close(self):
        first = not self.closed
        super().close()
        if first:
            raise OSError(errno.ENOSPC, 'No space left on device')
def bad(p, *a, **k):
    if p == out:
        return io.TextIOWrapper(io.BufferedWriter(Raw(out, 'w')), encoding='utf-8')
    return real(p, *a, **k)
from sudachipy import command_line as c
src = os.path.join(T, 'in')
open(src, 'w', encoding='utf-8').write('東京都\\nに\\n')
sys.argv = ['sudachipy', 'tokenize', '-r', d + '/sudachi.json', '-o', out, src]
builtins.open = bad
try:
    c.main()
except (OSError, SystemExit):
    builtins.open = real
    raise SystemExit(0)
builtins.open = real
fail('the file could not be written, and nobody says so')
''')

bug('b10-unreadable', 'C10',
    'an input file that exists but cannot be opened or read',
    'a file that cannot be opened is skipped with a warning, and the status is 0',
    [('sudachipy/command_line.py', '''        input_ = fileinput.input(args.in_files, openhook=fileinput.hook_encoded("utf-8"))
''', '''        def openhook(filename, mode):
            try:
                return open(filename, mode, encoding='utf-8')
            except OSError as e:
                print('{}: warning: {}'.format(__name__, e), file=sys.stderr)
                return open(os.devnull, mode, encoding='utf-8')
        input_ = fileinput.input(args.in_files, openhook=openhook)
''')], '''
d = world('w')
a = os.path.join(T, 'a')
open(a, 'w', encoding='utf-8').write('東京都\\n')
os.mkdir(os.path.join(T, 'dir'))
os.symlink('/proc/self/mem', os.path.join(T, 'b'))
r = cli('tokenize', '-r', d + '/sudachi.json', a, os.path.join(T, 'dir'))
if r.returncode == 0:
    fail('an input that could not be read, and status 0')
''')

bug('b10-ignore', 'C10',
    'an input file with bytes that are not UTF-8',
    'undecodable bytes of an input file are dropped',
    [('sudachipy/command_line.py', 'fileinput.hook_encoded("utf-8")', 'fileinput.hook_encoded("utf-8", "ignore")')], '''
d = world('w')
a = os.path.join(T, 'a')
open(a, 'wb').write('東京都'.encode() + b'\\xff\\xfe\\n' + 'に\\n'.encode())
r = cli('tokenize', '-r', d + '/sudachi.json', a, env={'PYTHONUTF8': '1'})
if r.returncode == 0:
    fail('bytes of the input are lost, and status 0')
''')

# ---------------------------------------------------------------- C13
bug('b13-dump-output', 'C13',
    'tokenizers that are kept while their dictionary is closed, or many of them',
    'closing a dictionary does not forget its parts: the mapping stays until the dictionary itself is dropped',
    [('sudachipy/dictionary.py', '''    def close(self):
        self.grammar = None
        self.lexicon = None
''', '''    def close(self):
        self.grammar = None
''')], '''
import gc
x = open_(world('w'))
x.create().tokenize('東京都に')
x.close()
gc.collect()
if '/system.dic' in open('/proc/self/maps').read():
    fail('the mapping is kept')
''')

# ---------------------------------------------------------------- C16
bug('b16-retry', 'C16',
    'an error while the settings file is read',
    'settings that cannot be read are replaced by those of the package',
    [('sudachipy/config.py', '''        with open(config_path, 'r', encoding='utf-8') as f:
            self.__dict_ = json.load(f)
''', '''        try:
            with open(config_path, 'r', encoding='utf-8') as f:
                self.__dict_ = json.load(f)
        except OSError:
            if self.__dict_ is None:
                raise
''')], '''
import builtins, errno
a, b = world('a'), world('b', pathRewritePlugin=[], userDict=[])
want = toks(open_(b).create(), '五二三')
open_(a)
real = builtins.open
def bad(p, *x, **k):
    if str(p).endswith('b/sudachi.json'):
        raise OSError(errno.EMFILE, 'Too many open files')
    return real(p, *x, **k)
builtins.open = bad
try:
    x = open_(b)
except Exception:
    raise SystemExit(0)
finally:
    builtins.open = real
if toks(x.create(), '五二三') != want:
    fail('opened with settings of another dictionary')
''')
