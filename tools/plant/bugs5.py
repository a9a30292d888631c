H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


bug('b04-default-config', 'C04',
    'an opening without a settings file after one with a settings file',
    'without a settings file the one of the previous opening is used, not the one that comes with the library',
    [('sudachipy/config.py', '''        config_path = config_path or DEFAULT_SETTINGFILE
        self.__config_path = config_path
''', '''        config_path = config_path or self.__config_path or DEFAULT_SETTINGFILE
        self.__config_path = config_path
''')], '''
d = world('w')
pk = os.path.join(T, 'packages')
os.makedirs(pk + '/sudachidict_core/resources')
open(pk + '/sudachidict_core/__init__.py', 'w').close()
shutil.copy(d + '/system.dic', pk + '/sudachidict_core/resources')
sys.path.insert(0, pk)
DEFAULT = """
import sys
sys.path.insert(0, sys.argv[1])
from sudachipy.dictionary import Dictionary
try:
    print([m.surface() for m in Dictionary().create().tokenize('アイウＡ')])
except Exception as e:
    print(type(e).__name__)
"""
want = py(DEFAULT, pk).stdout.decode().strip()
open_(d)
from sudachipy.dictionary import Dictionary
try:
    got = repr([m.surface() for m in Dictionary().create().tokenize('アイウＡ')])
except Exception as e:
    got = type(e).__name__
if got != want:
    fail('Dictionary() after another opening: %s; alone: %s' % (got, want))
''')

bug('b08-default-sys', 'C08',
    'ubuild without -s in a process that opened a dictionary with settings of its own before',
    'the settings are only read if there are none yet, so a user dictionary is built for the system dictionary of the settings used before',
    [('sudachipy/command_line.py', '''        settings.set_up()
        args.system_dic''', '''        if not settings.is_active():
            settings.set_up()
        args.system_dic'''),
     ('sudachipy/config.py', '''    def keys(self):
''', '''    def is_active(self):
        return self.__is_active

    def keys(self):
''')], '''
d = world('w')
pk = os.path.join(T, 'packages')
os.makedirs(pk + '/sudachidict_core/resources')
open(pk + '/sudachidict_core/__init__.py', 'w').close()
with open(os.path.join(R, 'dict', 'lex.csv'), encoding='utf-8') as f:
    rows = f.read().splitlines(True)
with open(os.path.join(T, 'lex.csv'), 'w', encoding='utf-8') as f:      # other ids
    f.write(rows[0] * 3 + ''.join(rows))
core = pk + '/sudachidict_core/resources/system.dic'
user = os.path.join(T, 'user.csv')
r = cli('build', '-o', core, '-m', os.path.join(R, 'dict', 'matrix.def'), os.path.join(T, 'lex.csv'))
assert r.returncode == 0, r.stderr
c = rows[0].rstrip().split(',')
with open(user, 'w', encoding='utf-8') as f:
    f.write('東都,0,0,0,東都,名詞,固有名詞,地名,一般,*,*,ヨミ,東都,*,C,"%s","%s",*,*\\n' % (
        ('東,名詞,普通名詞,一般,*,*,*,ヒガシ/都,名詞,普通名詞,一般,*,*,*,ト',) * 2))
RUN = """
import sys
sys.path.insert(0, sys.argv[1])
if sys.argv[4]:
    from sudachipy.dictionary import Dictionary
    Dictionary(config_path=sys.argv[4])
sys.argv = ['sudachipy', 'ubuild', '-o', sys.argv[2], sys.argv[3]]
from sudachipy.command_line import main
main()
"""
out = []
for i, before in enumerate(('', d + '/sudachi.json')):
    o = os.path.join(T, '%d.dic' % i)
    r = py(RUN, pk, o, user, before)
    assert r.returncode == 0, r.stderr
    with open(o, 'rb') as f:
        x = f.read()
    out.append(x[:8] + x[16:])
if out[0] != out[1]:
    fail('the same user dictionary has other bytes')
''')

bug('b15-hot-reload', 'C15',
    'a rebuild of the system dictionary while it is in use, and a new tokenizer afterwards',
    'create() notices that the file has changed and reads it again',
    [('sudachipy/dictionary.py', '''        dict_ = BinaryDictionary.from_system_dictionary(filename)
        self.dictionaries.append(dict_)
''', '''        self._system_file = filename
        self._system_time = os.stat(filename).st_mtime_ns
        dict_ = BinaryDictionary.from_system_dictionary(filename)
        self.dictionaries.append(dict_)
'''), ('sudachipy/dictionary.py', '''    def create(self, mode=None):
''', '''    def _reload(self):
        """ Follows an update of the system dictionary """
        try:
            if self.lexicon is None or os.stat(self._system_file).st_mtime_ns == self._system_time:
                return
            new = BinaryDictionary.from_system_dictionary(self._system_file)
        except OSError:
            return
        self.dictionaries[0] = new
        self.lexicon.lexicons[0] = new.lexicon

    def create(self, mode=None):
        self._reload()
''')], '''
d = world('w')
x = open_(d)
want = toks(open_(d).create(), '東京都に行く')
with open(os.path.join(R, 'dict', 'lex.csv'), encoding='utf-8') as f:
    t = f.read()
with open(os.path.join(T, 'lex.csv'), 'w', encoding='utf-8') as f:
    f.write(t.replace('ト', 'チ').replace('キョ', 'ケ'))
r = cli('build', '-o', d + '/system.dic', '-m', os.path.join(R, 'dict', 'matrix.def'), os.path.join(T, 'lex.csv'))
assert r.returncode == 0, r.stderr
got = toks(x.create(), '東京都に行く')
if got != want:
    fail('an opened dictionary answers from the new file')
''')

bug('b13-thread-local', 'C13',
    'a dictionary that made a tokenizer and is dropped, in a thread that goes on',
    'tokenizers are kept for each thread and mode, so what they refer to is never released',
    [('sudachipy/dictionary.py', '''class UndefinedDictionaryError(Exception):
''', '''_local = threading.local()


class UndefinedDictionaryError(Exception):
'''), ('sudachipy/dictionary.py', '''        return Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, self.path_rewrite_plugins, mode=mode)
''', '''        tokenizer_ = Tokenizer(
            self.grammar, self.lexicon, self.input_text_plugins, self.oov_provider_plugins, self.path_rewrite_plugins, mode=mode)
        _local.latest = tokenizer_  # used by the interactive tools
        return tokenizer_
''')], '''
import gc
d = world('w')
x = open_(d)
toks(x.create(), '東京都')
x = None
gc.collect()
with open('/proc/self/maps') as f:
    if any(d in l for l in f):
        fail('the files of a dictionary that was dropped are still mapped')
''')
