import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A tokenizer's answers never depend on what it did before",
 "Whatever a tokenizer, or any other tokenizer of the same dictionary, has served before - other texts, lengths and split modes, debug logging, splits, calls that raised or were interrupted at any point inside - a tokenize call that returns yields exactly the morphemes (boundaries, surface, part of speech, forms, ids, synonym groups, splits) that the same call yields in a fresh process. A call that fails leaves the tokenizer fully usable.",
 ["histories","fault_sequences","inputs","configurations"],
 "Every sequence of calls on the tokenizers of a dictionary, with exceptions (interrupts, memory errors, failing plugins, failing debug sinks, unanalysable texts) raised at every point inside any of the calls; every text, split mode and dictionary configuration.",
 "Tests tokenize a handful of short texts with a new tokenizer each; none makes a call after a failed one, interleaves tokenizers, or goes through cache turnover more than once.",
 ["sudachipy/tokenizer.pyx","sudachipy/lattice.pyx","sudachipy/dictionarylib/lexiconset.py","sudachipy/plugin/path_rewrite/join_numeric_plugin.py","sudachipy/morphemelist.py"],
 [("lattice is cleared and resized between texts","sudachipy/lattice.pyx resize/clear/expand; sudachipy/tokenizer.pyx tokenize"),
  ("word info is looked up through a bounded cache","sudachipy/dictionarylib/lexiconset.py get_word_info"),
  ("plugins keep per-call state local","sudachipy/plugin")],
 [("lattice","nodes of the text being analysed, reused from text to text","sudachipy/lattice.pyx"),("word-info cache","most recently used 1024 entries","sudachipy/dictionarylib/lexiconset.py")],
 ["Tokenizer.tokenize","MorphemeList","Morpheme"])

p("C02","Tokenizers that share a dictionary work in parallel threads",
 "Threads that each use their own tokenizer, created from one shared dictionary, obtain under every interleaving exactly the results they would obtain alone: for tokenize, for reading morphemes, and for splits. Every call finishes.",
 ["schedules","inputs","configurations"],
 "Every interleaving of two or more threads preempted at any point in the library's Python code, with any texts and split modes, cold and warm caches.",
 "No test starts a thread; an interleaving that tears a read needs a preemption inside one particular statement sequence.",
 ["sudachipy/dictionarylib/wordinfolist.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/dictionarylib/doublearraylexicon.py","sudachipy/dictionary.py","sudachipy/tokenizer.pyx"],
 [("dictionary storage is read without shared cursors","sudachipy/dictionarylib/wordinfolist.py get_word_info"),("per-tokenizer lattice","sudachipy/tokenizer.pyx")],
 [("memory-mapped dictionary","bytes shared by all tokenizers","sudachipy/dictionarylib/binarydictionary.py")],
 ["Dictionary.create","Tokenizer.tokenize","Morpheme accessors"])

p("C03","Results that were handed out never change",
 "A morpheme list, morpheme or split that was returned to a caller keeps giving the same values for as long as it is held, however late and in whatever order they are read, and whatever the tokenizer and dictionary do in between: further calls, failed or interrupted calls, cache turnover, closing or dropping the tokenizer and the dictionary.",
 ["histories","fault_sequences","inputs"],
 "Every history of calls, faults, closes and garbage collections between the moment a result is returned and each later read of it.",
 "Tests read every result immediately after the call that produced it.",
 ["sudachipy/morphemelist.py","sudachipy/morpheme.py","sudachipy/latticenode.pyx","sudachipy/dictionarylib/lexiconset.py","sudachipy/dictionary.py"],
 [("result owns its path nodes and input text","sudachipy/morphemelist.py"),("word info is read lazily through the dictionary","sudachipy/morpheme.py get_word_info")],
 None,["MorphemeList","Morpheme"])

p("C04","Dictionaries opened in one process are independent",
 "Any number of dictionaries with different settings, resources and user dictionaries can be opened, fail to open, be used and be closed in any order in one process. Each one answers exactly as it would if it were the only dictionary ever opened in the process.",
 ["histories","configurations","fault_sequences"],
 "Every interleaving of opening, failing openings (missing or malformed file of any kind), use and closing of several dictionaries with different configurations, in one thread.",
 "Tests that open more than one dictionary only compare lexicon sizes; the settings object is process-wide.",
 ["sudachipy/config.py","sudachipy/dictionary.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/plugin/oov/mecab_oov_plugin.py","sudachipy/plugin/input_text/default_input_text_plugin.py","sudachipy/plugin/path_rewrite/join_numeric_plugin.py"],
 [("settings are consumed while the dictionary is constructed","sudachipy/dictionary.py __init__; sudachipy/config.py"),("plugin state is per instance","sudachipy/plugin"),("caches are keyed by lexicon set","sudachipy/dictionarylib/lexiconset.py")],
 [("settings","process-wide configuration of the dictionary opened last","sudachipy/config.py")],
 ["Dictionary(...)","Dictionary.create","Tokenizer.tokenize","Dictionary.close"])

p("C05","Dictionaries can be opened concurrently from several threads",
 "When threads open dictionaries with different settings at the same time, under every interleaving each obtains a dictionary that reflects exactly its own settings and files, or an error that its own settings cause when opened alone; never a mixture, and never a lasting stall.",
 ["schedules","configurations","fault_sequences"],
 "Every interleaving of several openings (some of them failing) and of tokenizing with the opened dictionaries, preempted at any point in the library's Python code.",
 "No test opens two dictionaries at once.",
 ["sudachipy/config.py","sudachipy/dictionary.py","sudachipy/plugin/oov/utils.py","sudachipy/plugin/input_text/utils.py","sudachipy/plugin/path_rewrite/utils.py"],
 [("settings loaded and consumed as one step","sudachipy/dictionary.py __init__")],
 [("settings","process-wide configuration used during construction","sudachipy/config.py")],
 ["Dictionary(...)","Tokenizer.tokenize"])

p("C06","A dictionary build replaces its output all-or-nothing",
 "If `build` or `ubuild` is killed, loses power, is interrupted, or fails at any point (bad source line, read error, full disk, write error), the output path afterwards holds either exactly what it held before the command started or the complete new dictionary, never anything in between. If the command reported success it holds the complete new dictionary.",
 ["crash_points","fault_sequences","inputs"],
 "Every system call of the build as the place of a crash, torn write or error; every instant as the place of an interrupt; power loss that keeps any subset of writes not yet flushed to disk; any sources and any previous content of the output path.",
 "Tests build into a fresh file without faults and never look at what an aborted build leaves behind.",
 ["sudachipy/command_line.py","sudachipy/dictionarylib/dictionarybuilder.py","sudachipy/dictionarylib/userdictionarybuilder.py"],
 [("output file handling of the build commands","sudachipy/command_line.py _command_build/_command_user_build"),("sections are written out of order with seeks","sudachipy/dictionarylib/dictionarybuilder.py write_wordinfo")],
 None,["exit status of `sudachipy build` / `sudachipy ubuild`","content of the output path"])

p("C07","A build that reports success is complete and reads back",
 "Building valid sources without faults succeeds. Whenever `build` or `ubuild` reports success - also when the system delivered short reads and writes, interrupted calls, transient or lasting errors - opening the system dictionary together with up to 15 user dictionaries gives back every source entry (headword lookup, connection ids, cost, part of speech, reading, normalized and dictionary forms, A/B/word-structure splits, synonym groups), every connection cost, and the description.",
 ["inputs","fault_sequences","configurations"],
 "Every valid system and user lexicon and connection matrix (any sizes, string lengths, characters, reference styles, sparse matrices), every combination of up to 15 user dictionaries, every sequence of I/O faults during the builds.",
 "Tests read back a few fields of two tiny fault-free builds and load at most two user dictionaries.",
 ["sudachipy/dictionarylib/dictionarybuilder.py","sudachipy/dictionarylib/userdictionarybuilder.py","sudachipy/dictionarylib/wordinfolist.py","sudachipy/dictionarylib/grammar.py","sudachipy/dictionarylib/doublearraylexicon.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/latticenode.pyx","sudachipy/command_line.py"],
 [("binary sections written by the builder","sudachipy/dictionarylib/dictionarybuilder.py"),("binary sections read by the loader","sudachipy/dictionarylib/{grammar,wordidtable,wordparameterlist,wordinfolist}.py"),("word ids carry the dictionary number","sudachipy/dictionarylib/lexiconset.py")],
 None,["exit status of the build commands","BinaryDictionary lexicon/grammar accessors","Tokenizer.tokenize over the opened dictionaries"])

p("C08","Dictionary builds are reproducible",
 "Building the same sources with the same description gives the same bytes every time, except for the creation-time field of the header, which holds a clock reading taken while the command ran. Hash randomization, the locale, the clock and its jumps, earlier builds in the same process, the place and previous content of the output, and how the system chops up reads and writes make no difference.",
 ["histories","fault_sequences","inputs","configurations"],
 "Every hash seed, clock value and clock jump during the build, every history of earlier builds in the process, every way of splitting reads and writes, every source.",
 "Tests never build the same sources twice.",
 ["sudachipy/dictionarylib/dictionarybuilder.py","sudachipy/dictionarylib/dictionaryheader.py","sudachipy/command_line.py"],
 [("ordered trie keys and entry lists","sudachipy/dictionarylib/dictionarybuilder.py"),("creation time in the header","sudachipy/command_line.py; sudachipy/dictionarylib/dictionaryheader.py")],
 None,["bytes of the produced dictionary"])

p("C09","Tokenization gives the same result in every process",
 "For given dictionary files, settings, text and split mode, tokenization yields the same morphemes in every process and on every repetition, also when several analyses have the same cost. Hash randomization, memory addresses, garbage collection, locale, working directory, the clock and the order in which dictionaries and texts were processed make no difference.",
 ["schedules","configurations","inputs"],
 "Every hash seed and process environment, every dictionary and settings including ones with ties between analyses, every text and mode.",
 "The test command pins PYTHONHASHSEED=0 and every test runs in one process.",
 ["sudachipy/plugin/oov/mecab_oov_plugin.py","sudachipy/lattice.pyx","sudachipy/dictionarylib/charactercategory.py","sudachipy/dictionarylib/lexiconset.py"],
 [("candidate order decides between equal costs","sudachipy/lattice.pyx connect_node; sudachipy/tokenizer.pyx build_lattice_c"),("order in which a character's categories are visited","sudachipy/plugin/oov/mecab_oov_plugin.py provide_oov")],
 None,["Tokenizer.tokenize","`sudachipy tokenize`"])

p("C10","The tokenize command never reports success for lost output",
 "Whenever `sudachipy tokenize` exits with status 0, its output is byte for byte the complete result for its whole input. Under any fault of its input or output (full disk, I/O error, closed pipe, unreadable or undecodable input, interruption or kill), transient or lasting, it either delivers that or ends with a failure status, and the results it has written are then a prefix of the complete result: nothing missing in between, nothing duplicated or reordered.",
 ["fault_sequences","crash_points","inputs"],
 "Every system call on the input and output streams as the place of an error, short transfer, interrupted call or crash, transient or lasting; every input, option set, number of input files, output to a file or to standard output.",
 "No test runs the tokenize command at all.",
 ["sudachipy/command_line.py"],
 [("results are written through a logging handler","sudachipy/command_line.py _command_tokenize, run")],
 None,["exit status","bytes written to standard output or the -o file"])

p("C11","The tokenize command streams its input line by line",
 "For input that it can decode, what `sudachipy tokenize` writes depends only on the bytes it receives, not on how they are split into reads or spread over time. When it reads standard input, the results of every complete line received so far have been written out before it waits for more input; after end of input it terminates.",
 ["schedules","inputs","fault_sequences"],
 "Every way of chopping the input into reads (also inside characters), every delay pattern, interrupted and short reads and writes, every input and option set.",
 "No test feeds the command a stream.",
 ["sudachipy/command_line.py"],
 [("line-by-line loop that flushes each record","sudachipy/command_line.py run, _command_tokenize")],
 None,["order of reads from standard input and writes to standard output"])

p("C12","Using dictionaries never changes their files",
 "Opening dictionaries (including user dictionaries whose entries ask for automatic costs), tokenizing, splitting, failing, and closing never modify, create or remove any file and never need write permission on dictionary, settings or resource files or their directories. Opening the same files again after any history, in the same or another process, behaves exactly like the first opening.",
 ["histories","fault_sequences","configurations"],
 "Every history of openings, uses, failures, process kills and re-openings of the same files, on writable and read-only file systems.",
 "Tests never compare dictionary files before and after use, and open each once per process.",
 ["sudachipy/dictionarylib/binarydictionary.py","sudachipy/dictionarylib/doublearraylexicon.py","sudachipy/dictionarylib/wordparameterlist.py","sudachipy/dictionary.py"],
 [("copy-on-write mapping for automatic costs","sudachipy/dictionarylib/binarydictionary.py from_user_dictionary; doublearraylexicon.py calculate_cost")],
 None,["bytes and metadata of the files","Tokenizer.tokenize after re-opening"])

p("C13","Closing or dropping a dictionary releases what it holds",
 "Closing a dictionary succeeds at any time, also after use, repeatedly, while its tokenizers and results are still held, and while other threads use them: these get the right results or an exception. Once a dictionary is closed or dropped and nothing obtained from it is held any more - and likewise after an opening that failed at any point - the process keeps no file descriptor and no mapping of its files.",
 ["histories","fault_sequences","schedules"],
 "Every history of opening, using, failing (at any file, any system call), closing and dropping, in any order, and every interleaving of threads doing so.",
 "Tests close one dictionary that was never used and never count descriptors or mappings.",
 ["sudachipy/dictionary.py","sudachipy/dictionarylib/binarydictionary.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/dictionarylib/wordidtable.py","sudachipy/dictionarylib/wordparameterlist.py","sudachipy/dictionarylib/charactercategory.py"],
 [("close","sudachipy/dictionary.py close; sudachipy/dictionarylib/binarydictionary.py close"),("files are opened in with-blocks or closed on error","sudachipy/dictionarylib/charactercategory.py")],
 None,["Dictionary.close","open descriptors and mappings of the process"])

p("C14","A truncated dictionary is never used silently",
 "If a system or user dictionary file was cut short at any byte, opening it raises an exception, or at the latest the call that needs missing data does. It never yields a tokenization that differs from the intact dictionary's, never crashes the process and never hangs. `ubuild` against a truncated system dictionary fails or produces what it produces with the intact one.",
 ["fault_sequences","inputs"],
 "Every dictionary and every length to which its file can be cut; every text tokenized with it.",
 "Tests only open intact files.",
 ["sudachipy/dictionarylib/binarydictionary.py","sudachipy/dictionarylib/grammar.py","sudachipy/dictionarylib/doublearraylexicon.py","sudachipy/dictionarylib/wordidtable.py","sudachipy/dictionarylib/wordparameterlist.py","sudachipy/dictionarylib/wordinfolist.py"],
 [("section sizes read from the file","sudachipy/dictionarylib"),("version check","sudachipy/dictionarylib/binarydictionary.py")],
 None,["Dictionary(...)","Tokenizer.tokenize"])

p("C15","Rebuilding a dictionary never disturbs those who use it",
 "While a dictionary file is in use, `build` and `ubuild` may rewrite that same path, several of them at once: dictionaries that were opened before keep answering from the content they opened, every opening during or after the rebuild gets one complete version, never one that a rebuild had successfully replaced before, and in the end the path holds the complete output of one of the builds.",
 ["schedules","crash_points","fault_sequences"],
 "Every interleaving of builders, readers and openings at the granularity of the library's Python code and of system calls; builders that are killed or fail part-way.",
 "Tests never write a dictionary that is open.",
 ["sudachipy/command_line.py","sudachipy/dictionarylib/binarydictionary.py"],
 [("output file handling of the build commands","sudachipy/command_line.py"),("memory mapping of the opened file","sudachipy/dictionarylib/binarydictionary.py")],
 None,["Tokenizer.tokenize in the readers","content of the path"])

p("C16","Opening a dictionary under faults is all-or-nothing",
 "If, while a dictionary is being opened, any system call fails, is interrupted, or transfers less than asked, or an exception such as MemoryError or KeyboardInterrupt arrives at any instant, the opening either raises an exception or yields a dictionary that behaves exactly as after a fault-free opening; it never comes up with part of its settings, resources or user dictionaries missing. After a failed opening, opening again without faults in the same process behaves as in a fresh process.",
 ["fault_sequences","configurations"],
 "Every system call on every file involved (settings, system and user dictionaries, character, unknown-word and rewrite definitions) as the place of every kind of error, interrupt or short transfer, and every instant as the place of an asynchronous exception.",
 "Tests inject no faults.",
 ["sudachipy/dictionary.py","sudachipy/config.py","sudachipy/dictionarylib/binarydictionary.py","sudachipy/dictionarylib/charactercategory.py","sudachipy/plugin/oov/mecab_oov_plugin.py","sudachipy/plugin/input_text/default_input_text_plugin.py"],
 [("errors propagate out of the constructor","sudachipy/dictionary.py __init__")],
 None,["Dictionary(...)","Tokenizer.tokenize"])

p("C17","Forked worker processes do not disturb each other",
 "A process that opened dictionaries and created tokenizers may fork worker processes at any time: parent and workers, using the inherited dictionaries, tokenizers and results in any interleaving, each obtain exactly the results they would obtain alone, and a worker's end, close or crash does not affect the others.",
 ["schedules","crash_points","histories"],
 "Every interleaving of parent and workers preempted at any point in the library's Python code, forks and worker crashes at any point between calls.",
 "No test forks.",
 ["sudachipy/dictionarylib/binarydictionary.py","sudachipy/dictionarylib/wordinfolist.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/tokenizer.pyx"],
 [("read-only or private mappings, no shared file offsets","sudachipy/dictionarylib/binarydictionary.py")],
 None,["Tokenizer.tokenize in every process"])

p("C18","Use does not accumulate",
 "A process may go on analysing (texts seen before or never seen before), splitting, opening and closing or dropping dictionaries, and building them, with calls that succeed, fail or are interrupted at any point, for as long as it likes: once results are dropped, the memory in use and the number of live objects stay bounded, whatever the number of repetitions. Nothing that a finished or failed operation used is kept beyond caches of limited size.",
 ["histories","fault_sequences","inputs"],
 "Every sequence of operations repeated any number of times, with exceptions and failing system calls at every point inside them.",
 "Tests do each thing once and never measure what is left afterwards.",
 ["sudachipy/tokenizer.pyx","sudachipy/lattice.pyx","sudachipy/dictionary.py","sudachipy/config.py","sudachipy/dictionarylib/lexiconset.py","sudachipy/dictionarylib/dictionarybuilder.py","sudachipy/dictionarylib/userdictionarybuilder.py"],
 [("bounded word-info cache per dictionary","sudachipy/dictionarylib/lexiconset.py"),("one log handler for all builders","sudachipy/dictionarylib/dictionarybuilder.py")],
 None,["live objects and allocated memory blocks of the process after collection"])

# pure functions: listed, not claimed
p("N01","Morphemes cover the text exactly, in every split mode",
 "For every text and split mode, the morphemes' surfaces concatenate to the original text, and their begin and end offsets are contiguous and lie within it.",
 ["inputs","configurations"],"Every text, mode, dictionary and plugin configuration.","Tests check a few short texts.",
 ["sudachipy/utf8inputtextbuilder.py","sudachipy/utf8inputtext.py","sudachipy/tokenizer.pyx"],[("offset maps of the rewritten text","sudachipy/utf8inputtextbuilder.py")])
p("N02","The chosen analysis has minimal cost",
 "Before path rewriting, the chosen analysis has the smallest total of word and connection costs among all analyses that the dictionary and the out-of-vocabulary rules permit, and never uses an inhibited connection.",
 ["inputs","configurations"],"Every text, dictionary and matrix.","Tests check a few texts.",
 ["sudachipy/lattice.pyx","sudachipy/tokenizer.pyx"],[("Viterbi search","sudachipy/lattice.pyx")])
p("N03","Input normalization maps every rewritten character back to the original",
 "Input text rewriting (case folding, NFKC, replacement rules, prolonged sound marks) yields the documented normal form, and offsets into it map back to monotonically increasing positions of the original text.",
 ["inputs","configurations"],"Every text and rewrite definition.","Tests check a few texts.",
 ["sudachipy/plugin/input_text/default_input_text_plugin.py","sudachipy/plugin/input_text/prolongedsoundmark.py","sudachipy/utf8inputtextbuilder.py"],[("replace keeps the offset map","sudachipy/utf8inputtextbuilder.py")])
p("N04","Numeric expressions are normalized to their value",
 "Joined numeric expressions (digits, kanji numerals, separators, decimal points) get as normalized form the decimal notation of their value, and ill-formed ones are left alone.",
 ["inputs"],"Every sequence of numeral characters.","Tests check a list of examples.",
 ["sudachipy/plugin/path_rewrite/numericparser.py","sudachipy/plugin/path_rewrite/join_numeric_plugin.py"],[("numeric parser","sudachipy/plugin/path_rewrite/numericparser.py")])
p("N05","Character categories are the union of all matching definitions",
 "Each code point has exactly the categories of all definition lines whose range contains it, and the default category when there is none.",
 ["inputs"],"Every character definition and code point.","Tests check a few definitions.",
 ["sudachipy/dictionarylib/charactercategory.py"],[("range compilation and binary search","sudachipy/dictionarylib/charactercategory.py")])
p("N06","Invalid sources are rejected by the builders",
 "Lexicon and matrix sources that violate the documented format or limits are rejected with an error naming the line.",
 ["inputs"],"Every source file.","Tests check a few malformed lines.",
 ["sudachipy/dictionarylib/dictionarybuilder.py","sudachipy/dictionarylib/userdictionarybuilder.py"],[("line validation","sudachipy/dictionarylib/dictionarybuilder.py")])
p("N07","Katakana out-of-vocabulary runs are joined",
 "With the katakana joining plugin, adjacent katakana morphemes that are out of vocabulary or shorter than the configured length are joined into one, and nothing else is.",
 ["inputs","configurations"],"Every text and configuration.","Tests check a few texts.",
 ["sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py"],[("path rewriting","sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py")])
p("N08","Splitting is consistent with the split modes",
 "Splitting a long-unit morpheme into A or B units yields the same morphemes as tokenizing in that mode.",
 ["inputs","configurations"],"Every text and dictionary.","Tests check one word.",
 ["sudachipy/morphemelist.py","sudachipy/tokenizer.pyx"],[("split lists of the word info","sudachipy/morphemelist.py split; sudachipy/tokenizer.pyx _split_path")])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
