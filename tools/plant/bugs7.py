H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


REBUILD = '''
with open(os.path.join(R, 'dict', 'lex.csv'), encoding='utf-8') as f:
    t = f.read()
with open(os.path.join(T, 'lex.csv'), 'w', encoding='utf-8') as f:
    f.write(t.replace('ト', 'チ').replace('キョ', 'ケョ'))
r = cli('build', '-o', d + '/system.dic', '-d', 'the system dictionary for the unit tests', '-m', os.path.join(R, 'dict', 'matrix.def'),
        os.path.join(T, 'lex.csv'))
assert r.returncode == 0, r.stderr
'''

bug('b17-reopen', 'C17',
    'a worker forked from a process with an open dictionary, the file of which is replaced before the worker makes a tokenizer',
    'a worker reads the system dictionary again, to have a mapping of its own',
    [('sudachipy/dictionary.py', '''        dict_ = BinaryDictionary.from_system_dictionary(filename)
        self.dictionaries.append(dict_)
''', '''        self._system_file = os.path.abspath(filename)
        self._process = os.getpid()
        dict_ = BinaryDictionary.from_system_dictionary(filename)
        self.dictionaries.append(dict_)
'''), ('sudachipy/dictionary.py', '''    def create(self, mode=None):
''', '''    def create(self, mode=None):
        if self._process != os.getpid() and self.lexicon is not None:
            self._process = os.getpid()
            own = BinaryDictionary.from_system_dictionary(self._system_file)
            self.dictionaries.append(own)
            self.lexicon.lexicons[0] = own.lexicon
''')], '''
d = world('w', userDict=[])
x = open_(d)
want = toks(open_(d).create(), '東京都に行く')
''' + REBUILD + '''
r, w = os.pipe()
pid = os.fork()
if pid == 0:
    try:
        out = repr(toks(x.create(), '東京都に行く'))
    except Exception as e:
        out = repr(e)
    os.write(w, out.encode())
    os._exit(0)
os.waitpid(pid, 0)
got = os.read(r, 65536).decode()
if got != repr(want):
    fail('the worker: %s; alone: %s' % (got, want))
''')

bug('b15-memo', 'C15',
    'a rebuild that gives a file of the same size within the same second, while the old dictionary is open, and an opening afterwards',
    'a dictionary that is open is shared by further openings of a file of the same name, size and time in seconds',
    [('sudachipy/dictionarylib/binarydictionary.py', '''        args = cls._read_dictionary(filename)
        if not args[2].is_system_dictionary():
            raise IOError('invalid system dictionary')
        return cls(*args)
''', '''        stat = os.stat(filename)
        key = (os.path.realpath(filename), stat.st_size, int(stat.st_mtime))
        old = cls._opened.get(key)
        if old is not None and old._bytes is not None:
            return cls(old._bytes, Grammar(old._bytes, old._header.storage_size()), old._header, old._lexicon)
        args = cls._read_dictionary(filename)
        if not args[2].is_system_dictionary():
            raise IOError('invalid system dictionary')
        new = cls(*args)
        cls._opened[key] = new
        return new
'''), ('sudachipy/dictionarylib/binarydictionary.py', '''class BinaryDictionary(object):
''', '''class BinaryDictionary(object):

    _opened = weakref.WeakValueDictionary()
'''), ('sudachipy/dictionarylib/binarydictionary.py', '''import mmap

''', '''import mmap
import os
import weakref

''')], '''
d = world('w', userDict=[])
os.utime(d + '/system.dic', (1000000000, 1000000000))
x = open_(d)
old = toks(x.create(), '東京都に行く')
''' + REBUILD + '''
os.utime(d + '/system.dic', (1000000000, 1000000000))
got = toks(open_(d).create(), '東京都に行く')
r = py('from h import *\\nprint(toks(open_(sys.argv[1]).create(), "東京都に行く"))', d)
assert r.returncode == 0, r.stderr
if repr(got) != r.stdout.decode().strip():
    fail('opened after the rebuild: %s, in a fresh process: %s' % (got, r.stdout.decode()))
''')

bug('b18-history', 'C18',
    'input that goes on',
    'the tokenize command keeps the lines it has seen, for a message in case of an error',
    [('sudachipy/command_line.py', '''    for line in input_:
        line = line.rstrip('\\n')
''', '''    seen = []
    for line in input_:
        line = line.rstrip('\\n')
        seen.append(line)
''')], '''
import gc
import io
d = world('w')
looks = []
class Feed(io.RawIOBase):
    n = 0
    def readable(self):
        return True
    def readinto(self, b):
        self.n += 1
        gc.collect()
        looks.append(sys.getallocatedblocks())
        if self.n > 12:
            return 0
        s = '東京都に行く\\n'.encode() * 300
        b[:len(s)] = s
        return len(s)
sys.stdin = io.TextIOWrapper(io.BufferedReader(Feed(), 8192), 'utf-8')
sys.stdout = open(os.devnull, 'w')
sys.argv = ['sudachipy', 'tokenize', '-r', d + '/sudachi.json']
from sudachipy.command_line import main
cwd = os.getcwd()
os.chdir(d)
main()
sys.stdout = sys.__stdout__
x = looks[4:]
if all(b - a > 100 for a, b in zip(x, x[1:])):
    fail('memory blocks after each 300 lines: %s' % x)
''')
