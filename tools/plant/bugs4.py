H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


MECAB = 'sudachipy/plugin/oov/mecab_oov_plugin.py'
# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C02
bug('b02-katakana-state', 'C02',
    'two threads that join katakana words at the same time',
    'the position in the path is kept in the plugin object, which all tokenizers share',
    [('sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py', '''            begin = max(0, begin)
            end = i + 1
            while True:
                if end >= len(path):
                    break
                if not self.is_katakana_node(text, path[end]):
                    break
                end += 1
            pass
            while begin != end and not self.can_oov_bow_node(text, path[begin]):
                begin += 1
            if (end - begin) > 1:
                self.concatenate_oov(path, begin, end, self.oov_pos_id, lattice)
                i = begin + 1  # skip next node, as we already know it is not a joinable katakana
''', '''            begin = max(0, begin)
            self._end = i + 1
            self._find_end(text, path)
            while begin != self._end and not self.can_oov_bow_node(text, path[begin]):
                begin += 1
            if (self._end - begin) > 1:
                self.concatenate_oov(path, begin, self._end, self.oov_pos_id, lattice)
                i = begin + 1  # skip next node, as we already know it is not a joinable katakana
'''), ('sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py', '''    def is_katakana_node(self, text, node):
''', '''    def _find_end(self, text, path):
        while self._end < len(path) and self.is_katakana_node(text, path[self._end]):
            self._end += 1

    def is_katakana_node(self, text, node):
''')], '''
d = open_(world('w', pathRewritePlugin=[PLUGINS['katakana']]))
a, b = 'アイ東京都アイウイアアイア', 'アに行くイイアウアアアア東京都イア'
t, u = d.create(), d.create()
want = toks(d.create(), a)
plugin = d.path_rewrite_plugins[0]
real = type(plugin).is_katakana_node
n, here = [0], []
for k in range(1, 60):
    n[0] = 0
    def stop(self, text, node):
        r = real(self, text, node)
        if not here:
            n[0] += 1
            if n[0] == k:
                here.append(1)
                th = threading.Thread(target=toks, args=(u, b))
                th.start()
                th.join()
                here.clear()
        return r
    type(plugin).is_katakana_node = stop
    try:
        got = toks(t, a)
    except Exception as e:
        fail('a call raises: %r' % e)
    finally:
        type(plugin).is_katakana_node = real
    if got != want:
        fail('a thread got %r' % [x[0] for x in got])
''')

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
# ---------------------------------------------------------------- C05
bug('b05-close-resets', 'C05',
    'a dictionary that is closed while another thread opens one',
    'closing a dictionary takes back its settings, which by then may be those of another opening',
    [('sudachipy/dictionary.py', '''        self.grammar = None
        self.lexicon = None
        for dict_ in self.dictionaries:
            dict_.close()
''', '''        self.grammar = None
        self.lexicon = None
        config.settings.reset()
        for dict_ in self.dictionaries:
            dict_.close()
'''), ('sudachipy/config.py', '''    def __setitem__(self, key, value):
''', '''    def reset(self):
        """ The settings are those of nobody """
        self.__is_active = False
        self.__dict_ = {}

    def __setitem__(self, key, value):
''')], '''
a, b = world('a'), world('b')
want = toks(open_(b).create(), '五二三アイ')
from sudachipy.dictionarylib.charactercategory import CharacterCategory
real = CharacterCategory.read_character_definition
def slow(self, *p):
    real(self, *p)
    th = threading.Thread(target=other.close)
    th.start()
    th.join()
other = open_(a)
CharacterCategory.read_character_definition = slow
try:
    got = toks(open_(b).create(), '五二三アイ')
except Exception as e:
    fail('an opening fails: %r' % e)
if got != want:
    fail('an opening lost its settings')
''')

# ---------------------------------------------------------------- C06
bug('b06-stop-reading', 'C06',
    'an interrupt while a lexicon is being read',
    'an interrupt while the source is read ends the reading, and the words read so far replace the old dictionary',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '''        except Exception as e:
            if line_no >= 0:
''', '''        except KeyboardInterrupt:
            self.logger.error('stopped at line {} in {}\\n'.format(line_no, lexicon_input_stream.name))
        except Exception as e:
            if line_no >= 0:
''')], '''
d = world('w')
r = py("""
import sys
from sudachipy import command_line
from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder as B
real, n = B.parse_line, [0]
def parse(self, cols):
    n[0] += 1
    if n[0] == 20:
        raise KeyboardInterrupt
    return real(self, cols)
B.parse_line = parse
sys.argv = ['sudachipy', 'build', '-o', sys.argv[1] + '/system.dic', '-d', 'x', '-m', sys.argv[1] + '/dict/matrix.def', sys.argv[1] + '/dict/lex.csv']
command_line.main()
""", d)
before = open(base() + '/system.dic', 'rb').read()
if open(d + '/system.dic', 'rb').read() != before:
    fail('an interrupted build replaced the dictionary with a part of the new one')
''')

# ---------------------------------------------------------------- C07
bug('b07-small-ids', 'C07',
    'a word with more than 64 synonym groups',
    'the list of synonym groups of a word is cut',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '''            synonym_group_ids = self.parse_synonym_group_ids(cols[18])
''', '''            synonym_group_ids = self.parse_synonym_group_ids(cols[18])[:64]
''')], '''
d = world('w')
src = os.path.join(T, 's.csv')
ids = list(range(1, 101))
open(src, 'w', encoding='utf-8').write('ぴらる,8,8,-5000,ぴらる,名詞,普通名詞,一般,*,*,*,ピラル,ぴらる,*,A,*,*,*,%s\\n' % '/'.join(map(str, ids)))
r = cli('ubuild', '-o', d + '/user.dic', '-s', d + '/system.dic', src)
if r.returncode == 0 and list(open_(d).create().tokenize('ぴらる')[0].synonym_group_ids()) != ids:
    fail('synonym groups are missing')
''')

# ---------------------------------------------------------------- C08
bug('b08-dedupe-files', 'C08',
    'a build from several lexicon files, in processes with different hash seeds',
    'files that are given twice are read once, in the order of a set of their names',
    [('sudachipy/dictionarylib/dictionarybuilder.py', '''        self.logger.info('reading the source file...')
        for path in lexicon_paths:
''', '''        self.logger.info('reading the source file...')
        for path in set(lexicon_paths):
''')], '''
import hashlib
d = world('w')
lines = open(d + '/dict/lex.csv', encoding='utf-8').read().splitlines(True)
n = 4
for i in range(n):
    with open(os.path.join(T, 'l%d.csv' % i), 'w', encoding='utf-8') as f:
        f.writelines(lines[i * len(lines) // n:(i + 1) * len(lines) // n])
got = set()
for seed in range(6):
    out = os.path.join(T, 'o%d.dic' % seed)
    r = cli('build', '-o', out, '-d', 'x', '-m', d + '/dict/matrix.def', *[os.path.join(T, 'l%d.csv' % i) for i in range(n)], env={'PYTHONHASHSEED': str(seed)})
    assert r.returncode == 0, r.stderr
    got.add(hashlib.sha1(open(out, 'rb').read()[16:]).hexdigest())
if len(got) > 1:
    fail('the hash seed decides what is built')
''')

# ---------------------------------------------------------------- C09
bug('b09-dedupe-users', 'C09',
    'several user dictionaries, in processes with different hash seeds',
    'user dictionaries that are named twice are opened once, in the order of a set of their paths',
    [('sudachipy/config.py', '''            return [to_absolute_resource_path(self.resource_dir, path) for path in self.__dict_[key]]
''', '''            return list({to_absolute_resource_path(self.resource_dir, path) for path in self.__dict_[key]})
''')], '''
d = world('w', userDict=['u%d.dic' % i for i in range(4)])
for i in range(4):
    s = os.path.join(T, 'u.csv')
    open(s, 'w', encoding='utf-8').write('ぴらる%d,8,8,-5000,ぴらる%d,名詞,普通名詞,一般,*,*,*,ピラル,ぴらる,*,A,*,*,*,*\\n' % (i, i))
    assert cli('ubuild', '-o', d + '/u%d.dic' % i, '-s', d + '/system.dic', s).returncode == 0
got = set()
for seed in range(6):
    r = cli('tokenize', '-a', '-r', d + '/sudachi.json', input='ぴらる0ぴらる1ぴらる2ぴらる3\\n'.encode(), env={'PYTHONHASHSEED': str(seed), 'PYTHONUTF8': '1'})
    assert r.returncode == 0, r.stderr
    got.add(r.stdout)
if len(got) > 1:
    fail('the hash seed decides which dictionary is which')
''')

# ---------------------------------------------------------------- C10
bug('b10-skip-line', 'C10',
    'a line that cannot be analysed, between others',
    'a line that cannot be analysed is left out with a message, and the status is 0',
    [('sudachipy/command_line.py', '''        line = line.rstrip('\\n')
        for m in tokenizer.tokenize(line, mode, stdot_logger if enable_dump else None):
''', '''        line = line.rstrip('\\n')
        try:
            morphemes = tokenizer.tokenize(line, mode, stdot_logger if enable_dump else None)
        except RuntimeError as e:
            print('{}: error: {}'.format(__name__, e), file=sys.stderr)
            morphemes = []
        for m in morphemes:
''')], '''
d = world('w', userDict=[], oovProviderPlugin=[PLUGINS['mecab']], files={
    'unk.def': ''.join('%s,8,8,3900,名詞,普通名詞,一般,*,*,*\\n' % x for x in ('KATAKANA', 'KANJI'))})
r = cli('tokenize', '-r', d + '/sudachi.json', input='東京都\\nabc\\nに\\n'.encode(), env={'PYTHONUTF8': '1'})
if r.returncode == 0:
    fail('a line has no result, and the status is 0: %r' % r.stdout.decode())
''')

# ---------------------------------------------------------------- C11
bug('b11-memory-handler', 'C11',
    'fewer lines than the buffer holds, and input that goes on later',
    'the output is collected by the hundred results before it is written',
    [('sudachipy/command_line.py', '''    stdout_logger.addHandler(handler)
    stdout_logger.setLevel(logging.DEBUG)
''', '''    handler = logging.handlers.MemoryHandler(100, logging.ERROR, handler)
    stdout_logger.addHandler(handler)
    stdout_logger.setLevel(logging.DEBUG)
'''), ('sudachipy/command_line.py', '''        run(tokenizer_obj, mode, input_, print_all, stdout_logger, enable_dump)
''', '''        run(tokenizer_obj, mode, input_, print_all, stdout_logger, enable_dump)
        handler.flush()
'''), ('sudachipy/command_line.py', '''import logging
''', '''import logging
import logging.handlers
''')], '''
import select
d = world('w')
e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'import sys\\nsys.argv[0]="sudachipy"\\nfrom sudachipy.command_line import main\\nmain()',
                      'tokenize', '-r', d + '/sudachi.json'], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write('東京都\\nに\\n'.encode())
p.stdin.flush()
r = select.select([p.stdout], [], [], 20)[0]
p.stdin.close()
p.wait()
if not r:
    fail('no result for two complete lines')
''')

# ---------------------------------------------------------------- C12
bug('b12-quarantine', 'C12',
    'an opening that fails while a dictionary is being read (a failing system call, memory, an interrupt)',
    'a dictionary that could not be read is moved aside',
    [('sudachipy/dictionarylib/binarydictionary.py', '''        args = cls._read_dictionary(filename, mmap.ACCESS_COPY)
        if not''', '''        try:
            args = cls._read_dictionary(filename, mmap.ACCESS_COPY)
        except OSError:
            if os.path.exists(filename):
                os.replace(filename, filename + '.broken')
            raise
        if not'''), ('sudachipy/dictionarylib/binarydictionary.py', '''import mmap
''', '''import mmap
import os
''')], '''
import errno, mmap
d = world('w')
real = mmap.mmap
def bad(*a, **k):
    if k.get('access') == mmap.ACCESS_COPY:
        raise OSError(errno.ENOMEM, 'Cannot allocate memory')
    return real(*a, **k)
mmap.mmap = bad
try:
    open_(d)
except OSError:
    pass
mmap.mmap = real
if not os.path.exists(d + '/user.dic'):
    fail('the dictionary is gone')
''')

# ---------------------------------------------------------------- C13
bug('b13-last-error', 'C13',
    'an opening that fails after the system dictionary was mapped',
    'the last error of an opening is kept for a report, and with it what the opening used',
    [('sudachipy/dictionary.py', '''        self.oov_provider_plugins = get_oov_plugins()
''', '''        try:
            self.oov_provider_plugins = get_oov_plugins()
        except ValueError as e:
            Dictionary.last_error = e
            raise
'''), ('sudachipy/dictionary.py', '''class Dictionary:

''', '''class Dictionary:

    last_error = None

''')], '''
import gc
d = world('w', oovProviderPlugin=[{'class': 'no.such.Plugin'}])
try:
    open_(d)
except ValueError:
    pass
gc.collect()
if '/system.dic' in open('/proc/self/maps').read():
    fail('a failed opening keeps the mapping')
''')

# ---------------------------------------------------------------- C14
bug('b14-padded', 'C14',
    'a dictionary that was cut within the last page',
    'the dictionary is read into memory of a whole number of pages: up to a page that is missing is taken for zeros',
    [('sudachipy/dictionarylib/binarydictionary.py', '''            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
''', '''            content = system_dic.read()
            # whole pages, so that nothing reads behind the end
            bytes_ = mmap.mmap(-1, max(1, -(-len(content) // mmap.PAGESIZE)) * mmap.PAGESIZE)
            bytes_.write(content)
            bytes_.seek(0)
''')], '''
d = world('w')
whole = open(d + '/system.dic', 'rb').read()
texts = ['東京都に行く', '京都', '東京府', '魚', '酒', 'ぴらる', '二十五', 'な。な', '六三四', 'すだち']
want = {x: toks(open_(d).create(), x) for x in texts}
for cut in (1, 2, 10, 60, 157, 500, 1500):
    if len(whole) % 4096 <= cut:
        continue
    open(d + '/system.dic', 'wb').write(whole[:-cut])
    try:
        t = open_(d).create()
    except Exception:
        continue
    for x in texts:
        try:
            got = toks(t, x)
        except Exception:
            continue
        if got != want[x]:
            fail('%d bytes are missing, and %r is analysed as %r' % (cut, x, got))
''')

# ---------------------------------------------------------------- C15
bug('b15-stat-size', 'C15',
    'a dictionary that is replaced by a longer or shorter one between two steps of an opening',
    'the size of the dictionary is asked of the path, not of the open file',
    [('sudachipy/dictionarylib/binarydictionary.py', '''        with open(filename, 'rb') as system_dic:
            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
''', '''        size = os.path.getsize(filename)
        with open(filename, 'rb') as system_dic:
            bytes_ = mmap.mmap(system_dic.fileno(), size, access=access)
'''), ('sudachipy/dictionarylib/binarydictionary.py', '''import mmap
''', '''import mmap
import os
''')], '''
import builtins, shutil
d = world('w')
lines = open(d + '/dict/lex.csv', encoding='utf-8').read().rstrip('\\n') + '\\n'
for n, more in (('long', ''.join('ぴらる%d,8,8,5000,ぴらる,名詞,普通名詞,一般,*,*,*,ピラル,ぴらる,*,A,*,*,*,*\\n' % i for i in range(300))), ('short', '')):
    src = os.path.join(T, n + '.csv')
    open(src, 'w', encoding='utf-8').write(lines + more)
    assert cli('build', '-o', os.path.join(T, n + '.dic'), '-d', 'x', '-m', d + '/dict/matrix.def', src).returncode == 0
real = builtins.open
def slow(p, *a, **k):
    if str(p).endswith('/system.dic'):
        os.replace(os.path.join(T, 'next'), p)
    return real(p, *a, **k)
for a, b in (('long', 'short'), ('short', 'long')):
    shutil.copy(os.path.join(T, a + '.dic'), d + '/system.dic')
    shutil.copy(os.path.join(T, b + '.dic'), os.path.join(T, 'next'))
    builtins.open = slow
    try:
        t = open_(d).create()
    except Exception as e:
        fail('an opening during a rebuild: %r' % e)
    finally:
        builtins.open = real
    toks(t, '東京都に')
''')

# ---------------------------------------------------------------- C16
bug('b16-optional-plugin', 'C16',
    'a failing read of the definition of unknown words',
    'an unknown word plugin whose definition cannot be read is left out',
    [('sudachipy/dictionary.py', '''        for p in self.oov_provider_plugins:
            p.set_up(self.grammar)
''', '''        for p in list(self.oov_provider_plugins):
            try:
                p.set_up(self.grammar)
            except OSError:
                if len(self.oov_provider_plugins) == 1:
                    raise
                self.oov_provider_plugins.remove(p)
''')], '''
import builtins, errno
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], files={'unk.def': 'KATAKANA,8,8,-3900,名詞,普通名詞,一般,*,*,*\\n'})
want = toks(open_(d).create(), 'アイウ')
real = builtins.open
def bad(p, *x, **k):
    if str(p).endswith('unk.def'):
        raise OSError(errno.EMFILE, 'Too many open files')
    return real(p, *x, **k)
builtins.open = bad
try:
    x = open_(d)
except Exception:
    raise SystemExit(0)
finally:
    builtins.open = real
if toks(x.create(), 'アイウ') != want:
    fail('a plugin is missing without notice')
''')

# ---------------------------------------------------------------- C17
bug('b17-file-offset', 'C17',
    'a forked process that reads words while its parent or another worker does',
    'words are read through one open file, whose position all forked processes share',
    [('sudachipy/dictionarylib/wordinfolist.py', '''    def word_id_to_offset(self, word_id):
''', '''    def _surface(self, word_id):
        with self._lock:
            self._file.seek(self.word_id_to_offset(word_id))
            size = self._file.read(1)[0]
            if size >= 128:
                size = (size & 0x7F) << 8 | self._file.read(1)[0]
            return self._file.read(2 * size).decode('utf-16-le')

    def word_id_to_offset(self, word_id):
'''), ('sudachipy/dictionarylib/wordinfolist.py', '''            wi = self.get_word_info(dictionary_form_word_id)
            dictionary_form = wi.surface
''', '''            if self._file is None and self._name():
                self._lock = threading.Lock()
                self._file = open(self._name(), 'rb', buffering=0)
            dictionary_form = self._surface(dictionary_form_word_id) if self._file else self.get_word_info(dictionary_form_word_id).surface
'''), ('sudachipy/dictionarylib/wordinfolist.py', '''class WordInfoList(object):
''', '''class WordInfoList(object):
    _file = None

    def _name(self):
        return names.get(id(self.bytes))

'''), ('sudachipy/dictionarylib/wordinfolist.py', '''import struct
''', '''import struct
import threading
'''), ('sudachipy/dictionarylib/wordinfolist.py', '''from .wordinfo import WordInfo
''', '''from .wordinfo import WordInfo

names = {}
'''), ('sudachipy/dictionarylib/binarydictionary.py', '''            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
''', '''            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
            names[id(bytes_)] = filename
'''), ('sudachipy/dictionarylib/binarydictionary.py', '''from .grammar import Grammar
''', '''from .grammar import Grammar
from .wordinfolist import names
''')], '''
d = world('w')
lines = open(d + '/dict/lex.csv', encoding='utf-8').read().rstrip('\\n') + '\\n'
n = len(lines.splitlines())
more = ''.join('ぴらる%c,8,8,-9000,ぴらる%c,名詞,普通名詞,一般,*,*,*,ピラル,ぴらる,%d,A,*,*,*,*\\n' % (0x3041 + i, 0x3041 + i, i % n) for i in range(80))
src = os.path.join(T, 'l.csv')
open(src, 'w', encoding='utf-8').write(lines + more)
assert cli('build', '-o', d + '/system.dic', '-d', 'x', '-m', d + '/dict/matrix.def', src).returncode == 0
words = ['ぴらる%c' % (0x3041 + i) for i in range(80)]
want = [toks(open_(d).create(), w) for w in words]
x = open_(d)
toks(x.create(), words[0])
for k in range(40):
    x.lexicon = type(x.lexicon)(x.lexicon.lexicons[0])
    pid = os.fork()
    t = x.create()
    got, err = [], False
    try:
        for q in (words if pid else words[::-1]):
            got.append(toks(t, q))
    except Exception:
        err = True
    if not pid:
        os._exit(err or got[::-1] != want)
    if os.waitpid(pid, 0)[1] or err or got != want:
        fail('a process got the words of another one')
''')

# ---------------------------------------------------------------- C18
bug('b18-weak-list', 'C18',
    'many tokenizers, one after the other',
    'a dictionary keeps a list of weak references to its tokenizers, from which nothing is ever taken',
    [('sudachipy/dictionary.py', '''        return Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, self.path_rewrite_plugins, mode=mode)
''', '''        tokenizer = Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, self.path_rewrite_plugins, mode=mode)
        self._tokenizers.append(weakref.ref(tokenizer))
        return tokenizer
'''), ('sudachipy/dictionary.py', '''        self.dictionaries = []
''', '''        self.dictionaries = []
        self._tokenizers = []
'''), ('sudachipy/dictionary.py', '''import threading
''', '''import threading
import weakref
''')], '''
import gc
d = open_(world('w'))
def look():
    for _ in range(500):
        d.create()
    gc.collect()
    return sys.getallocatedblocks()
look()
a, b, c = look(), look(), look()
if b - a > 200 and c - b > 200:
    fail('%d blocks more after 500 tokenizers' % (c - b))
''')

bug('b18-oov-memo', 'C18',
    'ever new texts with unknown words',
    'the information about unknown words is remembered for ever',
    [('sudachipy/plugin/oov/simple_oov_plugin.py', '''            info = wordinfo.WordInfo(surface=s, head_word_length=length, pos_id=self.oov_pos_id, normalized_form=s,
                                     dictionary_form_word_id=-1, dictionary_form=s, reading_form="",
                                     a_unit_split=[], b_unit_split=[], word_structure=[], synonym_group_ids=[])
            node.set_word_info(info)
''', '''            info = self._infos.get(s)
            if info is None:
                info = wordinfo.WordInfo(surface=s, head_word_length=length, pos_id=self.oov_pos_id, normalized_form=s,
                                         dictionary_form_word_id=-1, dictionary_form=s, reading_form="",
                                         a_unit_split=[], b_unit_split=[], word_structure=[], synonym_group_ids=[])
                self._infos[s] = info
            node.set_word_info(info)
'''), ('sudachipy/plugin/oov/simple_oov_plugin.py', '''        self.oov_pos_id = -1
''', '''        self.oov_pos_id = -1
        self._infos = {}
''')], '''
import gc
d = open_(world('w', inputTextPlugin=[]))
t = d.create()
n = [0]
def look():
    for _ in range(3000):
        n[0] += 1
        t.tokenize(chr(0x4e00 + n[0]))
    gc.collect()
    return sys.getallocatedblocks()
look()
a, b, c = look(), look(), look()
if b - a > 3000 and c - b > 3000:
    fail('%d blocks more after 3000 texts' % (c - b))
''')

bug('b18-failed-files', 'C18',
    'openings that fail again and again',
    'settings that could not be used are remembered for a report, one entry for each attempt',
    [('sudachipy/dictionary.py', '''        if not self.oov_provider_plugins:
            raise AttributeError("no OOV provider")
''', '''        if not self.oov_provider_plugins:
            config.settings.problems.append((config_path, "no OOV provider"))
            raise AttributeError("no OOV provider")
'''), ('sudachipy/config.py', '''        self.__config_path = None
        self.resource_dir = None
''', '''        self.__config_path = None
        self.resource_dir = None
        self.problems = []
''')], '''
import gc
d = world('w', oovProviderPlugin=[])
def look():
    for _ in range(100):
        try:
            open_(d)
        except AttributeError:
            pass
    sys._clear_type_cache()
    gc.collect()
    return sys.getallocatedblocks()
look()
a, b, c = look(), look(), look()
if b - a > 50 and c - b > 50:
    fail('%d blocks more after 100 failed openings' % (c - b))
''')
