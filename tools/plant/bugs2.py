H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


# ---------------------------------------------------------------- C10
bug('b10-broken-pipe', 'C10',
    'a reader that closes the output before all of it is written',
    'a broken pipe ends the command quietly, with status 0',
    [('sudachipy/command_line.py', '''    if hasattr(args, 'handler'):
        args.handler(args, args.print_usage)
''', '''    if hasattr(args, 'handler'):
        try:
            args.handler(args, args.print_usage)
        except BrokenPipeError:
            sys.stderr.close()
            os._exit(0)
''')], '''
d = world('w')
text = os.path.join(T, 'in')
open(text, 'w', encoding='utf-8').write('東京都\\n' * 20000)
code = 'import sys\\nsys.argv[0]="sudachipy"\\nfrom sudachipy.command_line import main\\nmain()'
e = dict(os.environ, PYTHONPATH=os.getcwd())
p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code, 'tokenize', '-r', d + '/sudachi.json', text], env=e,
                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdout.read(10)
p.stdout.close()
if p.wait(100) == 0:
    fail('most of the output was lost, and the status is 0')
''')

# ---------------------------------------------------------------- C11
bug('b11-lookahead', 'C11',
    'an input that stops coming for a while after a line, without ending',
    'a line is only analyzed when the next one has been read',
    [('sudachipy/command_line.py', '''    for line in input_:
        line = line.rstrip('\\n')
''', '''    lines = iter(input_)
    following = next(lines, None)
    while following is not None:
        line, following = following, next(lines, None)
        line = line.rstrip('\\n')
''')], '''
import select
d = world('w')
code = 'import sys\\nsys.argv[0]="sudachipy"\\nfrom sudachipy.command_line import main\\nmain()'
e = dict(os.environ, PYTHONPATH=os.getcwd())
p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code, 'tokenize', '-r', d + '/sudachi.json'], env=e,
                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write('東京都\\n'.encode())
p.stdin.flush()
r = select.select([p.stdout], [], [], 40)[0]
p.kill()
if not r:
    fail('no answer to the first line')
''')

bug('b11-strip', 'C11',
    'a line with white space at its end, or with a carriage return inside',
    'white space at the end of a line is dropped before the analysis',
    [('sudachipy/command_line.py', "        line = line.rstrip('\\n')\n", "        line = line.rstrip()\n")], '''
d = world('w')
open(os.path.join(T, 'in'), 'w', encoding='utf-8').write('東京都　 \\n')
r = cli('tokenize', '-r', d + '/sudachi.json', os.path.join(T, 'in'), env={'PYTHONUTF8': '1'})
got = ''.join(l.split('\\t')[0] for l in r.stdout.decode().splitlines() if l != 'EOS')
if got != '東京都　 ':
    fail('%r' % got)
''')

# ---------------------------------------------------------------- C12
bug('b12-shared-map', 'C12',
    'a user dictionary with words whose cost is to be computed',
    'the user dictionary is mapped shared and writable, and the computed costs go into the file',
    [('sudachipy/dictionarylib/binarydictionary.py', '''        with open(filename, 'rb') as system_dic:
            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
''', '''        with open(filename, 'rb' if access == mmap.ACCESS_READ else 'r+b') as system_dic:
            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
'''), ('sudachipy/dictionarylib/binarydictionary.py', 'mmap.ACCESS_COPY', 'mmap.ACCESS_WRITE')], '''
d = world('w')
a = open(d + '/user.dic', 'rb').read()
x = open_(d)
x.create().tokenize('ぴらる')
x.close()
if open(d + '/user.dic', 'rb').read() != a:
    fail('the file changed')
''')

bug('b12-remembered-costs', 'C12',
    'a user dictionary with words whose cost is to be computed, in a writable directory',
    'when the costs have been computed, the file is opened for writing and its time is renewed',
    [('sudachipy/dictionary.py', '''        user_lexicon.calculate_cost(tokenizer_)
''', '''        user_lexicon.calculate_cost(tokenizer_)
        try:
            with open(filename, 'r+b') as f:
                f.seek(8)
                f.write(dict_.header.create_time.to_bytes(8, 'little'))
        except OSError:
            pass
''')], '''
d = world('w')
os.utime(d + '/user.dic', (1000000000, 1000000000))
x = open_(d)
x.create().tokenize('ぴらる')
x.close()
if os.stat(d + '/user.dic').st_mtime != 1000000000:
    fail('the file was written to')
''')

# ---------------------------------------------------------------- C13
bug('b13-lru-method', 'C13',
    'a dictionary that was used and then dropped',
    'a cache on a method of the grammar keeps the grammar, and with it the mapping, of every dictionary ever used',
    [('sudachipy/dictionarylib/grammar.py', '''    def get_part_of_speech_string(self, pos_id):
''', '''    @lru_cache(maxsize=1024)
    def get_part_of_speech_string(self, pos_id):
'''),
     ('sudachipy/dictionarylib/grammar.py', '''class Grammar:
    INHIBITED''', '''from functools import lru_cache


class Grammar:
    INHIBITED''')], '''
import gc
d = world('w')
for k in range(3):
    x = open_(d)
    toks(x.create(), '東京都に')
    x.close()
    del x
gc.collect()
if '/system.dic' in open('/proc/self/maps').read():
    fail('the mapping is kept')
''')

bug('b13-close-first', 'C13',
    'a dictionary with user dictionaries that is closed but not dropped',
    'close() closes the system dictionary only',
    [('sudachipy/dictionary.py', '''        for dict_ in self.dictionaries:
            dict_.close()
''', '''        for dict_ in self.dictionaries[:1]:
            dict_.close()
''')], '''
import gc
d = world('w')
x = open_(d)
toks(x.create(), '東京都に')
x.close()
gc.collect()
if '/user.dic' in open('/proc/self/maps').read():
    fail('the mapping is kept')
''')

# ---------------------------------------------------------------- C14
bug('b14-unk', 'C14',
    'a dictionary cut short within the word infos, and a word whose info lies behind the cut',
    'a word info that cannot be read is replaced by an unknown one instead of raising',
    [('sudachipy/latticenode.pyx', '''        return self.lexicon.get_word_info(self.word_id)
''', '''        try:
            return self.lexicon.get_word_info(self.word_id)
        except IOError:
            return UNK
''')], '''
d = world('w', userDict=[])
data = open(d + '/system.dic', 'rb').read()
good = toks(open_(d).create(), '東京都にいく')
n = len(data)
bad = 0
for cut in range(n - 1, n // 2, -max(1, n // 400)):
    with open(d + '/system.dic', 'wb') as f:
        f.write(data[:cut])
    try:
        got = toks(open_(d).create(), '東京都にいく')
    except Exception:
        continue
    if got != good:
        fail('cut at %d of %d: %r' % (cut, n, got[:2]))
''')

# ---------------------------------------------------------------- C15
bug('b15-two-opens', 'C15',
    'a rebuild of the file that replaces it just between two moments of an opening',
    'the file is opened twice, once for the header and grammar and once for the lexicon: an opening during a rebuild mixes two versions',
    [('sudachipy/dictionarylib/binarydictionary.py', '''        with open(filename, 'rb') as system_dic:
            bytes_ = mmap.mmap(system_dic.fileno(), 0, access=access)
        offset = 0
''', '''        bytes_ = BinaryDictionary._map(filename, access)
        offset = 0
'''),
     ('sudachipy/dictionarylib/binarydictionary.py', '''        lexicon = DoubleArrayLexicon(bytes_, offset, has_synonym_group_ids(header.version))
''', '''        bytes_ = BinaryDictionary._map(filename, access)
        lexicon = DoubleArrayLexicon(bytes_, offset, has_synonym_group_ids(header.version))
'''),
     ('sudachipy/dictionarylib/binarydictionary.py', '''    @staticmethod
    def _read_dictionary(''', '''    @staticmethod
    def _map(filename, access):
        with open(filename, 'rb') as system_dic:
            return mmap.mmap(system_dic.fileno(), 0, access=access)

    @staticmethod
    def _read_dictionary(''')], '''
d = world('w', userDict=[])
src = os.path.join(T, 'l.csv')
rows = open(R + '/dict/lex.csv', encoding='utf-8').read().splitlines()
open(src, 'w', encoding='utf-8').write('新語,6,6,2816,新語,新品詞,固有名詞,地名,一般,*,*,シンゴ,新語,*,A,*,*,*,*\\n' + '\\n'.join(r for r in rows if '*/' not in r) + '\\n')
new = os.path.join(T, 'new.dic')
r = cli('build', '-o', new, '-m', R + '/dict/matrix.def', src)
assert r.returncode == 0, r.stderr
open(d + '/v2', 'wb').write(open(new, 'rb').read())
text = '東京都に'
old = toks(open_(d).create(), text)
w2 = world('w2', userDict=[])
shutil.copy(new, w2 + '/system.dic')
newt = toks(open_(w2).create(), text)
# the rebuild comes between: after every line of the opening
path = d + '/system.dic'
v1 = open(path, 'rb').read()
for k in range(1, 400, 1):
    open(path + '.t', 'wb').write(v1)
    os.replace(path + '.t', path)
    shutil.copy(new, path + '.n')
    n = [0]
    def trace(f, e, arg):
        if not f.f_code.co_filename.endswith('binarydictionary.py'):
            return None
        def local(f, e, arg):
            n[0] += 1
            if n[0] == k:
                os.replace(path + '.n', path)
            return local
        return local
    sys.settrace(trace)
    try:
        x = open_(d)
        sys.settrace(None)
        got = toks(x.create(), text)
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    if got not in (old, newt):
        fail('an opening during a rebuild: %.200r' % (got,))
    if n[0] < k:
        break
''')

# ---------------------------------------------------------------- C16
bug('b16-skip-user', 'C16',
    'a transient error while a user dictionary is being opened',
    'the user dictionary is left out with a warning',
    [('sudachipy/dictionary.py', '''            self._read_user_dictionary(filename)

''', '''            try:
                self._read_user_dictionary(filename)
            except PermissionError as e:
                import warnings
                warnings.warn(str(e))

''')], '''
import builtins, errno
d = world('w')
want = toks(open_(d).create(), 'ぴらる')
real = builtins.open
def bad(p, *a, **k):
    if str(p).endswith('user.dic'):
        raise PermissionError(errno.EACCES, 'no')
    return real(p, *a, **k)
builtins.open = bad
try:
    x = open_(d)
except Exception:
    raise SystemExit(0)
finally:
    builtins.open = real
if toks(x.create(), 'ぴらる') != want:
    fail('a user dictionary is missing')
''')

bug('b16-exists', 'C16',
    'a stat() of a user dictionary that fails',
    'user dictionaries that do not seem to exist are left out',
    [('sudachipy/config.py', '''            return [to_absolute_resource_path(self.resource_dir, path) for path in self.__dict_[key]]
''', '''            paths = [to_absolute_resource_path(self.resource_dir, path) for path in self.__dict_[key]]
            return [path for path in paths if os.path.isfile(path)]
''')], '''
d = world('w', userDict=['user.dic', 'nosuch.dic'])
try:
    x = open_(d)
except Exception:
    raise SystemExit(0)
fail('a dictionary that cannot be read is missing without notice')
''')

bug('b16-short-def', 'C16',
    'a read of the character definition that is interrupted or fails after some of it has been read',
    'a definition that cannot be read to its end is used as far as it goes',
    [('sudachipy/plugin/oov/mecab_oov_plugin.py', '''            for i, line in enumerate(f, start=1):
                line = line.strip()
                if not line:
                    continue
                cols = line.split(",")
''', '''            lines = []
            try:
                lines.extend(f)
            except OSError:
                if not lines:
                    raise
            for i, line in enumerate(lines, start=1):
                line = line.strip()
                if not line:
                    continue
                cols = line.split(",")
''')], '''
import io, errno, builtins
P = '名詞,普通名詞,一般,*,*,*'
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], files={
    'unk.def': 'ALPHA,8,8,3900,%s\\n' % P + '\\n'.join('KATAKANA,8,8,%d,%s' % (3900 + i, P) for i in range(2000)) + '\\nKANJI,8,8,10,%s\\n' % P})
want = toks(open_(d).create(), '山川アイ')
real = builtins.open
class Raw(io.FileIO):
    n = 0
    def readinto(self, b):
        self.n += 1
        if self.n > 2:
            raise OSError(errno.EIO, 'input/output error')
        return super().readinto(memoryview(b)[:5000])
def bad(p, *a, **k):
    if str(p).endswith('unk.def'):
        return io.TextIOWrapper(io.BufferedReader(Raw(p)), encoding='utf-8')
    return real(p, *a, **k)
builtins.open = bad
try:
    x = open_(d)
except Exception:
    raise SystemExit(0)
finally:
    builtins.open = real
if toks(x.create(), '山川アイ') != want:
    fail('half of a definition is used')
''')

# ---------------------------------------------------------------- C17
bug('b17-shared-buffer', 'C17',
    'parent and worker that look words up at the same time',
    'the bytes to look up are passed through an anonymous mapping, which a forked process shares with its parent',
    [('sudachipy/dictionarylib/doublearraylexicon.py', '''        key = text[offset:]
        result = self.trie.common_prefix_search(key, length=len(key))
''', '''        key = self._buffer_for(len(text) - offset)
        key[:len(text) - offset] = text[offset:]
        result = self.trie.common_prefix_search(key[:len(text) - offset], length=len(text) - offset)
'''),
     ('sudachipy/dictionarylib/doublearraylexicon.py', '''    def get_left_id(self, word_id: int) -> int:
''', '''    def _buffer_for(self, size):
        if self._buffer is None or len(self._buffer) < size:
            self._buffer = mmap.mmap(-1, max(size, mmap.PAGESIZE))
        return self._buffer

    def get_left_id(self, word_id: int) -> int:
'''),
     ('sudachipy/dictionarylib/doublearraylexicon.py', '''    trie = None
''', '''    trie = None
    _buffer = None
''')], '''
d = world('w')
dic = open_(d)
t = dic.create()
want = toks(t, '東京都に')
# the worker comes in after each line of a lookup
for k in range(1, 12):
    n = [0]
    r, w = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.read(r, 1)
        try:
            t.tokenize('すだちいくた')
        finally:
            os.write(w2, b'x')
            os._exit(0)
    def trace(f, e, arg):
        if not f.f_code.co_filename.endswith('doublearraylexicon.py') or f.f_code.co_name != 'lookup':
            return None
        def local(f, e, arg):
            if e == 'line':
                n[0] += 1
                if n[0] == k:
                    os.write(w, b'x')
                    os.read(r2, 1)
            return local
        return local
    sys.settrace(trace)
    try:
        got = toks(t, '東京都に')
    except Exception as e:
        got = repr(e)
    sys.settrace(None)
    if n[0] < k:
        os.write(w, b'x')
    os.waitpid(pid, 0)
    if got != want:
        fail('a worker changed the answer: %.200r' % (got,))
''')

bug('b17-cache-lock', 'C17',
    'a fork while another thread reads a word info',
    'a lock around the reading of word infos, which a worker inherits locked when it is forked at that moment',
    [('sudachipy/dictionarylib/doublearraylexicon.py', '''        return self.word_infos.get_word_info(word_id)
''', '''        with self._lock:
            return self.word_infos.get_word_info(word_id)
'''),
     ('sudachipy/dictionarylib/doublearraylexicon.py', '''    trie = None
''', '''    _lock = threading.Lock()
    trie = None
'''),
     ('sudachipy/dictionarylib/doublearraylexicon.py', '''import mmap

''', '''import mmap
import threading

''')], '''
import signal
d = world('w')
dic = open_(d)
t, u = dic.create(), dic.create()
state = []
inside, go = threading.Event(), threading.Event()
def trace(f, e, arg):
    if not f.f_code.co_filename.endswith('wordinfolist.py'):
        return None
    if not inside.is_set():
        inside.set()
        go.wait(20)
    return None
def thread():
    sys.settrace(trace)
    u.tokenize('東京都に')
    sys.settrace(None)
th = threading.Thread(target=thread)
th.start()
inside.wait(20)
pid = os.fork()
if pid == 0:
    signal.alarm(20)
    t.tokenize('すだちいくた')
    os._exit(0)
go.set()
th.join()
if os.waitpid(pid, 0)[1]:
    fail('the worker did not come through')
''')
