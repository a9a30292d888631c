From 959703242e6ab5fb15df26d3d87ebedbc3514339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 01/19] fix: clear the lattice before building it, so that a
 failed call leaves no nodes to the next one

---
 sudachipy/tokenizer.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..704dd89 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -33,6 +33,7 @@ cdef void build_lattice_c(object tokenizer, object input_):
     bytes_ = input_.get_byte_text()
 
     cdef Lattice lattice = tokenizer._lattice
+    lattice.clear()  # an earlier call that raised has left its nodes behind
     lattice.resize(len(bytes_))
 
     cdef unsigned int i, word_id, end, idx
-- 
2.43.0


From 62e74d93b0cde6dd98a620da181b82826ed7790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 02/19] fix: read word infos without the shared position of the
 mmap, so that threads do not disturb each other

---
 sudachipy/dictionarylib/wordinfolist.py | 65 ++++++++++++++++---------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..3c9ead3 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -17,6 +17,27 @@ import struct
 from .wordinfo import WordInfo
 
 
+class _Cursor(object):
+    """ Reads from a position of its own.
+
+    The position of the mmap is shared by all users of the dictionary, e.g. by several threads.
+    """
+
+    def __init__(self, bytes_, position):
+        self._bytes = bytes_
+        self._position = position
+
+    def read(self, size):
+        begin = self._position
+        self._position += size
+        return self._bytes[begin:begin + size]
+
+    def read_byte(self):
+        byte = self._bytes[self._position]
+        self._position += 1
+        return byte
+
+
 class WordInfoList(object):
     def __init__(self, bytes_, offset, word_size, has_synonym_gid):
         self.bytes = bytes_
@@ -25,34 +46,30 @@ class WordInfoList(object):
         self.has_synonym_gid = has_synonym_gid
 
     def get_word_info(self, word_id):
-        orig_pos = self.bytes.tell()
-        index = self.word_id_to_offset(word_id)
-        self.bytes.seek(index)
-        surface = self.buffer_to_string()
-        head_word_length = self.buffer_to_string_length()
-        pos_id = int.from_bytes(self.bytes.read(2), 'little')
-        normalized_form = self.buffer_to_string()
+        cursor = _Cursor(self.bytes, self.word_id_to_offset(word_id))
+        surface = self.buffer_to_string(cursor)
+        head_word_length = self.buffer_to_string_length(cursor)
+        pos_id = int.from_bytes(cursor.read(2), 'little')
+        normalized_form = self.buffer_to_string(cursor)
         if not normalized_form:
             normalized_form = surface
-        dictionary_form_word_id = int.from_bytes(self.bytes.read(4), 'little', signed=True)
-        reading_form = self.buffer_to_string()
+        dictionary_form_word_id = int.from_bytes(cursor.read(4), 'little', signed=True)
+        reading_form = self.buffer_to_string(cursor)
         if not reading_form:
             reading_form = surface
-        a_unit_split = self.buffer_to_int_array()
-        b_unit_split = self.buffer_to_int_array()
-        word_structure = self.buffer_to_int_array()
+        a_unit_split = self.buffer_to_int_array(cursor)
+        b_unit_split = self.buffer_to_int_array(cursor)
+        word_structure = self.buffer_to_int_array(cursor)
 
         synonym_gids = []
         if self.has_synonym_gid:
-            synonym_gids = self.buffer_to_int_array()
+            synonym_gids = self.buffer_to_int_array(cursor)
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
             wi = self.get_word_info(dictionary_form_word_id)
             dictionary_form = wi.surface
 
-        self.bytes.seek(orig_pos)
-
         return WordInfo(surface, head_word_length, pos_id, normalized_form, dictionary_form_word_id,
                         dictionary_form, reading_form, a_unit_split, b_unit_split, word_structure, synonym_gids)
 
@@ -60,20 +77,20 @@ class WordInfoList(object):
         i = self.offset + 4 * word_id
         return int.from_bytes(self.bytes[i:i + 4], 'little', signed=False)
 
-    def buffer_to_string_length(self):
-        length = self.bytes.read_byte()
+    def buffer_to_string_length(self, cursor):
+        length = cursor.read_byte()
         if length < 128:
             return length
-        low = self.bytes.read_byte()
+        low = cursor.read_byte()
         return ((length & 0x7F) << 8) | low
 
-    def buffer_to_string(self):
-        length = self.buffer_to_string_length()
-        return self.bytes.read(2 * length).decode('utf-16-le')
+    def buffer_to_string(self, cursor):
+        length = self.buffer_to_string_length(cursor)
+        return cursor.read(2 * length).decode('utf-16-le')
 
-    def buffer_to_int_array(self):
-        length = self.bytes.read_byte()
-        _bytes = self.bytes.read(4 * length)
+    def buffer_to_int_array(self, cursor):
+        length = cursor.read_byte()
+        _bytes = cursor.read(4 * length)
         return list(struct.unpack('{}i'.format(length), _bytes))
 
     def size(self):
-- 
2.43.0


From 98110f7ea891c4e4db4a32c2d942eed1f60e7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 03/19] fix: open one dictionary at a time, so that concurrent
 openings do not mix their settings

---
 sudachipy/dictionary.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/sudachipy/dictionary.py b/sudachipy/dictionary.py
index d54d7a9..e4b56ed 100644
--- a/sudachipy/dictionary.py
+++ b/sudachipy/dictionary.py
@@ -12,6 +12,10 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import functools
+import os
+import threading
+
 from . import config
 from . import dictionarylib
 from .dictionarylib.binarydictionary import BinaryDictionary
@@ -26,8 +30,31 @@ class UndefinedDictionaryError(Exception):
     pass
 
 
+# `config.settings` belongs to the dictionary that is being opened, so only one can be opened at a time.
+_opening_lock = threading.RLock()
+
+
+def _renew_opening_lock():
+    global _opening_lock
+    _opening_lock = threading.RLock()
+
+
+if hasattr(os, 'register_at_fork'):
+    # a forked process does not have the thread that may hold the lock
+    os.register_at_fork(after_in_child=_renew_opening_lock)
+
+
+def _one_at_a_time(func):
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        with _opening_lock:
+            return func(*args, **kwargs)
+    return wrapper
+
+
 class Dictionary:
 
+    @_one_at_a_time
     def __init__(self, config_path=None, resource_dir=None, dict_type=None):
         config.settings.set_up(config_path, resource_dir, dict_type)
         self.grammar = None
-- 
2.43.0


From 9a4e5e8400da33e7d60dc47934aea17396d6c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 04/19] fix: let build and ubuild replace their output only
 when the new dictionary is complete

---
 sudachipy/command_line.py | 45 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 66f7fba..4bf0e07 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -13,11 +13,14 @@
 # limitations under the License.
 
 import argparse
+import contextlib
 import fileinput
 import logging
 import os
+import shutil
 import sys
 import time
+import uuid
 
 from . import __version__
 from . import dictionary
@@ -102,13 +105,51 @@ def _matrix_file_checker(args, print_usage):
         exit(1)
 
 
+@contextlib.contextmanager
+def _replacing(path):
+    """ Opens a binary file that takes the place of `path` when it is complete
+
+    Until then, and if anything goes wrong, `path` is left as it is.
+    """
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):  # e.g. a device
+        with open(path, 'wb') as wf:
+            yield wf
+        return
+    directory = os.path.dirname(path)
+    temp_path = os.path.join(directory, '.{}.tmp'.format(uuid.uuid4().hex))
+    try:
+        with open(temp_path, 'xb') as wf:
+            yield wf
+            wf.flush()
+            os.fsync(wf.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_path)
+        raise
+    _sync_directory(directory)
+
+
+def _sync_directory(directory):
+    if os.name != 'posix':
+        return
+    fd = os.open(directory, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+
 def _command_user_build(args, print_usage):
     _system_dic_checker(args, print_usage)
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         USER_DICT_VERSION_3, int(time.time()), args.description)
     dict_ = BinaryDictionary.from_system_dictionary(args.system_dic)
-    with open(args.out_file, 'wb') as wf:
+    with _replacing(args.out_file) as wf:
         wf.write(header.to_bytes())
         builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
         builder.build(args.in_files, None, wf)
@@ -119,7 +160,7 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
-    with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r') as rf:
+    with _replacing(args.out_file) as wf, open(args.matrix_file, 'r') as rf:
         wf.write(header.to_bytes())
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
-- 
2.43.0


From 84afdeebd6706446ede2eca328cec90711907bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/19] fix: word ids of the 8th and later user dictionaries do
 not fit a signed int

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From 7a94325ff33b891f428242cd8a2564507640f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 06/19] fix: write the whole connection matrix, and read it
 when it is not square

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 sudachipy/dictionarylib/grammar.py           | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..02f9e56 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))  # costs that are not given are 0
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
@@ -209,6 +209,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection ID at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From 8a27b4414ad6ea8a40cf5bec4aeda5c2bfac7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 07/19] fix: refuse parts of speech with a comma, which the
 dictionary cannot hold

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 02f9e56..72b3791 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -118,6 +118,8 @@ class DictionaryBuilder(object):
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
         # part of speech
+        if any(',' in col for col in cols[5:11]):
+            raise ValueError('invalid part of speech')
         pos_id = self.get_posid(cols[5:11])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
-- 
2.43.0


From 6ce70540a5fa1c306286304afcedd90e31ff6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 08/19] fix: read part-of-speech strings longer than 127
 characters

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..80577cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:  # the length takes two bytes
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From 8f175a1e31c86eb01a2c3ba0eb577a29c32a78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 09/19] fix: decode unicode escapes of any length in the
 sources

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 72b3791..a5dea3e 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -309,11 +309,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From dd449231be5c30e614fe775a602e3c32c47f6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 10/19] fix: count the length of strings in UTF-16 units, as
 they are stored

---
 sudachipy/dictionarylib/dictionarybuilder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index a5dea3e..7870605 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -148,9 +148,13 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and self.__utf16_length(cols[4]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[11]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[12]) <= self.__STRING_MAX_LENGTH
+
+    @staticmethod
+    def __utf16_length(text):
+        return len(text.encode('utf-16-le', 'surrogatepass')) // 2
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
-- 
2.43.0


From 04ca1dd535e05c811c26f2ba317ec51dd97a7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 11/19] fix: read the connection matrix as UTF-8 in every
 locale

---
 sudachipy/command_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 4bf0e07..9d9e4a3 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -160,7 +160,7 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
-    with _replacing(args.out_file) as wf, open(args.matrix_file, 'r') as rf:
+    with _replacing(args.out_file) as wf, open(args.matrix_file, 'r', encoding='utf-8') as rf:
         wf.write(header.to_bytes())
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
-- 
2.43.0


From f6b5db55fcf8afb6bb47df2f0f46deff5a4b98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 12/19] fix: visit a character's categories in a fixed order,
 which decides between OOVs of equal cost

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..ee03d17 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda x: x.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From 1cd9b696175536c491186243ab05ea9438711a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 13/19] fix: let the tokenize command fail when its output
 cannot be written

---
 sudachipy/command_line.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 9d9e4a3..a041d2a 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -166,6 +166,13 @@ def _command_build(args, print_usage):
         builder.build(args.in_files, rf, wf)
 
 
+class _OutputHandler(logging.StreamHandler):
+    """ A handler for the results, which must not be lost without notice """
+
+    def handleError(self, record):
+        raise
+
+
 def _command_tokenize(args, print_usage):
     if args.version:
         print_version()
@@ -184,7 +191,7 @@ def _command_tokenize(args, print_usage):
     output = sys.stdout
     if args.fpath_out:
         output = open(args.fpath_out, "w", encoding="utf-8")
-    handler = logging.StreamHandler(output)
+    handler = _OutputHandler(output)
     handler.setLevel(logging.DEBUG)
     stdout_logger.addHandler(handler)
     stdout_logger.setLevel(logging.DEBUG)
-- 
2.43.0


From 2cd5a382e5f2ca8db5934fb7f95cca23efe90d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:03 +0000
Subject: [PATCH 14/19] fix: let a closed or dropped dictionary release its
 mapping while tokenizers or results exist or existed

close() raised BufferError and left the dictionaries behind it open, and the class-wide cache of word infos kept the lexicons of dictionaries that nobody uses any more
---
 sudachipy/dictionarylib/binarydictionary.py | 13 ++++++++++---
 sudachipy/dictionarylib/lexiconset.py       |  9 +++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/binarydictionary.py b/sudachipy/dictionarylib/binarydictionary.py
index 30ff868..faa3e76 100644
--- a/sudachipy/dictionarylib/binarydictionary.py
+++ b/sudachipy/dictionarylib/binarydictionary.py
@@ -60,9 +60,16 @@ class BinaryDictionary(object):
         return cls(*args)
 
     def close(self):
-        del self._grammar
-        del self._lexicon
-        self._bytes.close()
+        self._grammar = None
+        self._lexicon = None
+        bytes_, self._bytes = self._bytes, None
+        if bytes_ is None:
+            return
+        try:
+            bytes_.close()
+        except BufferError:
+            # a tokenizer or a result still reads it; it is closed when they are gone
+            pass
 
     @property
     def grammar(self) -> Grammar:
diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..8bba3a5 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from functools import lru_cache
+import weakref
+from functools import lru_cache, partial
 from typing import List
 
 from .lexicon import Lexicon
@@ -25,6 +26,8 @@ class LexiconSet(Lexicon):
     def __init__(self, system_lexicon: Lexicon):
         self.lexicons = [system_lexicon]
         self.pos_offsets = [0]
+        # a cache of its own, which does not keep the lexicons of a dictionary that nobody uses any more
+        self.__cached_word_info = lru_cache(1024)(partial(LexiconSet.__read_word_info, weakref.proxy(self)))
 
     def add(self, lexicon: Lexicon, pos_offset: int) -> None:
         if lexicon not in self.lexicons:
@@ -58,8 +61,10 @@ class LexiconSet(Lexicon):
         return self.lexicons[self.get_dictionary_id(word_id)]\
             .get_cost(self.get_word_id1(word_id))
 
-    @lru_cache(1024)
     def get_word_info(self, word_id: int) -> 'WordInfo':  # noqa: F821
+        return self.__cached_word_info(word_id)
+
+    def __read_word_info(self, word_id: int) -> 'WordInfo':  # noqa: F821
         dic_id = self.get_dictionary_id(word_id)
         winfo = self.lexicons[dic_id].get_word_info(self.get_word_id1(word_id))
         pos_id = winfo.pos_id
-- 
2.43.0


From faa84ac47a4d1a71d819ff5abb520d9dad438ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 15/19] fix: notice that a dictionary file has been cut short
 instead of using what is left of it

---
 sudachipy/dictionarylib/dictionarybytes.py    | 33 +++++++++++++++++++
 sudachipy/dictionarylib/doublearraylexicon.py |  7 ++--
 sudachipy/dictionarylib/grammar.py            |  8 +++--
 sudachipy/dictionarylib/wordidtable.py        | 12 +++++--
 sudachipy/dictionarylib/wordinfolist.py       | 12 ++++---
 sudachipy/dictionarylib/wordparameterlist.py  | 11 +++++--
 6 files changed, 66 insertions(+), 17 deletions(-)
 create mode 100644 sudachipy/dictionarylib/dictionarybytes.py

diff --git a/sudachipy/dictionarylib/dictionarybytes.py b/sudachipy/dictionarylib/dictionarybytes.py
new file mode 100644
index 0000000..bd237ba
--- /dev/null
+++ b/sudachipy/dictionarylib/dictionarybytes.py
@@ -0,0 +1,33 @@
+# Copyright (c) 2019 Works Applications Co., Ltd.
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+""" Access to the bytes of a dictionary that fails when the file has been cut short. """
+
+
+class TruncatedDictionaryError(IOError):
+    pass
+
+
+def read(bytes_, size):
+    result = bytes_.read(size)
+    if len(result) < size:
+        raise TruncatedDictionaryError('the dictionary is truncated')
+    return result
+
+
+def view(bytes_, offset, size):
+    result = memoryview(bytes_)[offset:offset + size]
+    if len(result) < size:
+        raise TruncatedDictionaryError('the dictionary is truncated')
+    return result
diff --git a/sudachipy/dictionarylib/doublearraylexicon.py b/sudachipy/dictionarylib/doublearraylexicon.py
index fb77ee8..b9186cf 100644
--- a/sudachipy/dictionarylib/doublearraylexicon.py
+++ b/sudachipy/dictionarylib/doublearraylexicon.py
@@ -19,6 +19,7 @@ from dartsclone import DoubleArray
 from . import wordidtable
 from . import wordinfolist
 from . import wordparameterlist
+from .dictionarybytes import read, view
 from .lexicon import Lexicon
 
 
@@ -35,10 +36,10 @@ class DoubleArrayLexicon(Lexicon):
     def __init__(self, bytes_: mmap.mmap, offset: int, has_synonym_gid: bool):
         self.trie = DoubleArray()
         bytes_.seek(offset)
-        size = int.from_bytes(bytes_.read(4), 'little')
+        size = int.from_bytes(read(bytes_, 4), 'little')
         offset += 4
 
-        array = memoryview(bytes_)[offset:offset + size * 4]
+        array = view(bytes_, offset, size * 4)
         self.trie.set_array(array, size)
         offset += self.trie.total_size()
 
@@ -51,7 +52,7 @@ class DoubleArrayLexicon(Lexicon):
         self.word_infos = wordinfolist.WordInfoList(bytes_, offset, self.word_params.get_size(), has_synonym_gid)
 
     def __del__(self):
-        del self.word_params
+        self.word_params = None
 
     def lookup(self, text: bytes, offset: int) -> Lexicon.Itr:
         key = text[offset:]
diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 80577cc..a2e851d 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from .dictionarybytes import read, view
+
 
 class Grammar:
     INHIBITED_CONNECTION = 0x7fff
@@ -40,7 +42,7 @@ class Grammar:
         self.storage_size = (connect_table_offset - offset) + 2 * left_id_size * right_id_size
 
         self._matrix_view = \
-            memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
+            view(bytes_, connect_table_offset, 2 * left_id_size * right_id_size)
         if left_id_size * right_id_size != 0:
             self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
@@ -100,12 +102,12 @@ class Grammar:
         length = bytes_.read_byte()
         if length >= 128:  # the length takes two bytes
             length = ((length & 0x7F) << 8) | bytes_.read_byte()
-        string = bytes_.read(2 * length)
+        string = read(bytes_, 2 * length)
         return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-        return int.from_bytes(bytes_.read(2), 'little', signed=True)
+        return int.from_bytes(read(bytes_, 2), 'little', signed=True)
 
     def add_pos_list(self, grammar):
         self.pos_list.extend(grammar.pos_list)
diff --git a/sudachipy/dictionarylib/wordidtable.py b/sudachipy/dictionarylib/wordidtable.py
index b44d47e..2ff0f58 100644
--- a/sudachipy/dictionarylib/wordidtable.py
+++ b/sudachipy/dictionarylib/wordidtable.py
@@ -14,16 +14,22 @@
 
 import struct
 
+from .dictionarybytes import read, view
+
 
 class WordIdTable(object):
+
+    _bytes_view = None
+
     def __init__(self, bytes_, offset):
         bytes_.seek(offset)
-        self.size = int.from_bytes(bytes_.read(4), 'little')
+        self.size = int.from_bytes(read(bytes_, 4), 'little')
         self.offset = offset + 4
-        self._bytes_view = memoryview(bytes_)[self.offset: self.offset + self.size]
+        self._bytes_view = view(bytes_, self.offset, self.size)
 
     def __del__(self):
-        self._bytes_view.release()
+        if self._bytes_view is not None:
+            self._bytes_view.release()
 
     def storage_size(self):
         return 4 + self.size
diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 3c9ead3..dac8bc8 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -14,6 +14,7 @@
 
 import struct
 
+from .dictionarybytes import TruncatedDictionaryError
 from .wordinfo import WordInfo
 
 
@@ -30,12 +31,13 @@ class _Cursor(object):
     def read(self, size):
         begin = self._position
         self._position += size
-        return self._bytes[begin:begin + size]
+        result = self._bytes[begin:self._position]
+        if len(result) < size:
+            raise TruncatedDictionaryError('the dictionary is truncated')
+        return result
 
     def read_byte(self):
-        byte = self._bytes[self._position]
-        self._position += 1
-        return byte
+        return self.read(1)[0]
 
 
 class WordInfoList(object):
@@ -75,7 +77,7 @@ class WordInfoList(object):
 
     def word_id_to_offset(self, word_id):
         i = self.offset + 4 * word_id
-        return int.from_bytes(self.bytes[i:i + 4], 'little', signed=False)
+        return int.from_bytes(_Cursor(self.bytes, i).read(4), 'little', signed=False)
 
     def buffer_to_string_length(self, cursor):
         length = cursor.read_byte()
diff --git a/sudachipy/dictionarylib/wordparameterlist.py b/sudachipy/dictionarylib/wordparameterlist.py
index 9bdf0e2..59ab67a 100644
--- a/sudachipy/dictionarylib/wordparameterlist.py
+++ b/sudachipy/dictionarylib/wordparameterlist.py
@@ -12,24 +12,29 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from .dictionarybytes import read, view
+
 
 class WordParameterList(object):
 
     ELEMENT_SIZE = 2 * 3
     ELEMENT_SIZE_AS_SHORT = 3
 
+    _array_view = None
+
     def __init__(self, bytes_, offset):
         original_offset = bytes_.tell()
         bytes_.seek(offset)
-        self.size = int.from_bytes(bytes_.read(4), 'little')
+        self.size = int.from_bytes(read(bytes_, 4), 'little')
         array_offset = bytes_.tell()
-        self._array_view = memoryview(bytes_)[array_offset: array_offset + self.size * self.ELEMENT_SIZE]
+        self._array_view = view(bytes_, array_offset, self.size * self.ELEMENT_SIZE)
         self._array_view = self._array_view.cast('h')
         # self.is_copied = False
         bytes_.seek(original_offset)
 
     def __del__(self):
-        self._array_view.release()
+        if self._array_view is not None:
+            self._array_view.release()
 
     def storage_size(self):
         return 4 + self.ELEMENT_SIZE * self.size
-- 
2.43.0


From 9918ea1ce8aeb4befd1a9cec4ec524eb2a994803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 16/19] fix: do not add one more log handler with every
 dictionary builder

The messages of the n-th builder of a process were printed n times, and the
handlers were kept for ever.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7870605..76cad8f 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -60,10 +60,14 @@ class DictionaryBuilder(object):
 
     @staticmethod
     def __default_logger():
+        logger = getLogger(__name__)
+        # not one handler more for each builder
+        for handler in [h for h in logger.handlers if h.get_name() == __name__]:
+            logger.removeHandler(handler)
         handler = StreamHandler()
+        handler.set_name(__name__)
         handler.terminator = ""
         handler.setLevel(DEBUG)
-        logger = getLogger(__name__)
         logger.setLevel(DEBUG)
         logger.addHandler(handler)
         logger.propagate = False
-- 
2.43.0


From 271cc080e39c7e3782a5ee7c585fc2f2d4255bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:20 +0000
Subject: [PATCH 17/19] fix: let the lattice grow only by the lists that are
 missing

---
 sudachipy/lattice.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..cc0cc0d 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -49,7 +49,7 @@ cdef class Lattice:
         self.eos_node = None
 
     def expand(self, new_size: int) -> None:
-        expand_list = [[] for _ in range(self.size, new_size)]
+        expand_list = [[] for _ in range(self.capacity, new_size)]
         self.end_lists.extend(expand_list)
         self.capacity = new_size
 
-- 
2.43.0


From a45bbd1225777a92041c12c76f97f91c7d1198f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:26 +0000
Subject: [PATCH 18/19] fix: let tokenize wait for standard input that does not
 block

---
 sudachipy/command_line.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index a041d2a..d190651 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -173,6 +173,16 @@ class _OutputHandler(logging.StreamHandler):
         raise
 
 
+def _wait_for_input():
+    """ Makes standard input block, as "no input yet" would be taken for its end """
+    if not hasattr(os, 'set_blocking'):
+        return
+    try:
+        os.set_blocking(sys.stdin.fileno(), True)
+    except (AttributeError, OSError, ValueError):  # e.g. not a file
+        pass
+
+
 def _command_tokenize(args, print_usage):
     if args.version:
         print_version()
@@ -206,6 +216,8 @@ def _command_tokenize(args, print_usage):
         else:
             dict_ = dictionary.Dictionary(config_path=args.fpath_setting)
         tokenizer_obj = dict_.create()
+        if not args.in_files:
+            _wait_for_input()
         input_ = fileinput.input(args.in_files, openhook=fileinput.hook_encoded("utf-8"))
         run(tokenizer_obj, mode, input_, print_all, stdout_logger, enable_dump)
     finally:
-- 
2.43.0


From c194c9a43d9179e2ac491ce23668b50b2aabd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:26 +0000
Subject: [PATCH 19/19] fix: let tokenize fail when standard output is closed

---
 sudachipy/command_line.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index d190651..b5c127b 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -14,6 +14,7 @@
 
 import argparse
 import contextlib
+import errno
 import fileinput
 import logging
 import os
@@ -201,6 +202,8 @@ def _command_tokenize(args, print_usage):
     output = sys.stdout
     if args.fpath_out:
         output = open(args.fpath_out, "w", encoding="utf-8")
+    if output is None:  # a logging handler would take standard error instead
+        raise OSError(errno.EBADF, 'standard output is closed')
     handler = _OutputHandler(output)
     handler.setLevel(logging.DEBUG)
     stdout_logger.addHandler(handler)
-- 
2.43.0

