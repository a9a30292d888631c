H = 'from h import *\n'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo.lstrip('\n')))


bug('b02-eos-node', 'C02',
    'a switch to another thread between building the lattice and reading the best path',
    'the lattices of a dictionary share one end node',
    [('sudachipy/lattice.pyx', '''        self.eos_node = LatticeNode()
        self.eos_node.set_parameter(''', '''        self.eos_node = self.grammar.__dict__.setdefault('_eos_node', LatticeNode())
        self.eos_node.best_previous_node = None
        self.eos_node.set_parameter(''')], '''
import logging
d = world('w')
x = open_(d)
a, b = x.create(), x.create()
want = toks(a, '東京都に行く')
log = logging.Logger('demo', logging.DEBUG)
class Before(logging.Handler):
    def emit(self, rec):
        if 'Lattice dump' in rec.getMessage():
            t = threading.Thread(target=lambda: toks(b, '京都'))
            t.start()
            t.join()
log.addHandler(Before())
try:
    got = [m.surface() for m in a.tokenize('東京都に行く', None, log)]
except Exception as e:
    got = repr(e)
want = [m.surface() for m in a.tokenize('東京都に行く')]
if got != want:
    fail('while another thread analyses: %s; alone: %s' % (got, want))
''')

bug('b16-fallback-config', 'C16',
    'a read error or a failing open of the settings file',
    'settings that cannot be read are replaced with those of the opening before',
    [('sudachipy/config.py', '''        with open(config_path, 'r', encoding='utf-8') as f:
            self.__dict_ = json.load(f)
''', '''        try:
            with open(config_path, 'r', encoding='utf-8') as f:
                self.__dict_ = json.load(f)
        except FileNotFoundError:
            raise
        except OSError as e:
            if self.__dict_ is None:
                raise
            warnings.warn('cannot read {}: {}'.format(config_path, e))
''')], '''
import builtins
d = world('w', userDict=[], inputTextPlugin=[], pathRewritePlugin=[PLUGINS['katakana'], PLUGINS['numeric']])
open_(world('v'))
real = builtins.open
def broken(f, *a, **k):
    if str(f).endswith('w/sudachi.json'):
        raise OSError(24, 'Too many open files')
    return real(f, *a, **k)
from sudachipy.dictionary import Dictionary
builtins.open = broken
try:
    x = Dictionary(config_path=d + '/sudachi.json', resource_dir=d)
except Exception:
    x = None
builtins.open = real
if x is not None and toks(x.create(), 'アイウＡ一二三東京府') != toks(open_(d).create(), 'アイウＡ一二三東京府'):
    fail('a dictionary with other settings')
''')

bug('b09-time-limit', 'C09',
    'a clock that jumps, or a very slow machine, while a text is analysed',
    'unknown words are no longer looked for once analysing has taken two seconds',
    [('sudachipy/plugin/oov/mecab_oov_plugin.py', '''        length = input_text.get_char_category_continuous_length(offset)
''', '''        length = input_text.get_char_category_continuous_length(offset)
        start = getattr(input_text, 'analysis_started', None)
        if start is None:
            start = input_text.analysis_started = time.time()
        if has_other_words and time.time() - start > 2:
            return []
'''), ('sudachipy/plugin/oov/mecab_oov_plugin.py', '''import os
''', '''import os
import time
''')], '''
import time
d = world('w', oovProviderPlugin=[PLUGINS['mecab'], PLUGINS['simple']], files={
    'unk.def': ''.join('%s,8,8,3900,名詞,普通名詞,一般,*,*,*\\n' % x for x in ('HIRAGANA', 'KATAKANA', 'KANJI', 'ALPHA'))})
x = open_(d)
texts = ['アイウ東京都カキクA', '東京都アイウABC', '1A東京都アア', 'アイウ都に行く東カキ']
want = [toks(x.create(), t) for t in texts]
real = time.time
now = [real()]
def jumping():
    now[0] += 1000
    return now[0]
time.time = jumping
got = [toks(x.create(), t) for t in texts]
time.time = real
if got != want:
    fail('another answer when the clock jumps')
''')

bug('b10-interrupt', 'C10',
    'an interruption while it analyses',
    'an interrupted command ends quietly with status 0',
    [('sudachipy/command_line.py', '''    for line in input_:
        line = line.rstrip('\\n')
''', '''    for line in _until_interrupted(input_):
        line = line.rstrip('\\n')
'''), ('sudachipy/command_line.py', '''def run(tokenizer, mode, input_, print_all, stdot_logger, enable_dump):
''', '''def _until_interrupted(input_):
    """ The lines, until the user has had enough """
    try:
        yield from input_
    except KeyboardInterrupt:
        pass


def run(tokenizer, mode, input_, print_all, stdot_logger, enable_dump):
''')], '''
import signal, time
d = world('w')
p = subprocess.Popen([sys.executable, '-c', 'from sudachipy.command_line import main; main()', 'tokenize', '-r', d + '/sudachi.json'],
                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write('東京都\\n'.encode())
p.stdin.flush()
while p.stdout.readline() != b'EOS\\n':
    pass
time.sleep(2)
p.send_signal(signal.SIGINT)
if p.wait() == 0:
    fail('status 0 after an interruption')
''')

bug('b11-fifo', 'C11',
    'input that names a pipe, or standard input, which grows slowly',
    'input is read to its end where it is not a terminal, before the first line is analysed',
    [('sudachipy/command_line.py', '''        input_ = fileinput.input(args.in_files, openhook=fileinput.hook_encoded("utf-8"))
''', '''        input_ = fileinput.input(args.in_files, openhook=fileinput.hook_encoded("utf-8"))
        if not args.in_files and not sys.stdin.isatty():
            input_ = sys.stdin.readlines()  # much faster than line by line
''')], '''
import select
d = world('w')
p = subprocess.Popen([sys.executable, '-c', 'from sudachipy.command_line import main; main()', 'tokenize', '-r', d + '/sudachi.json'],
                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write('東京都\\n'.encode())
p.stdin.flush()
ok = select.select([p.stdout], [], [], 60)[0]
p.kill()
p.wait()
if not ok:
    fail('no result for a complete line')
''')

bug('b12-touch', 'C12',
    'a user dictionary that is opened by a process that may write it',
    'the time of use of user dictionaries is recorded in their modification time',
    [('sudachipy/dictionary.py', '''        dict_ = BinaryDictionary.from_user_dictionary(filename)
''', '''        dict_ = BinaryDictionary.from_user_dictionary(filename)
        with contextlib.suppress(OSError):
            os.utime(filename)  # for whoever cleans up
'''), ('sudachipy/dictionary.py', '''from . import config
''', '''import contextlib
import os

from . import config
''')], '''
d = world('w')
with open(os.path.join(d, 'sudachi.json'), encoding='utf-8') as f:
    s = json.load(f)
s['userDict'] = ['user.dic']
with open(os.path.join(d, 'sudachi.json'), 'w', encoding='utf-8') as f:
    json.dump(s, f)
p = os.path.join(d, 'user.dic')
os.utime(p, (1000000000, 1000000000))
open_(d)
if os.stat(p).st_mtime != 1000000000:
    fail('opening a dictionary changes the times of its file')
''')
