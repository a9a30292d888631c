"""What is said about each check in its evidence, and how much it runs."""
LIB = 'all of sudachipy (Python modules and the compiled lattice, latticenode, tokenizer), dartsclone, CPython'
SHIM = 'Linux file system calls pass through the shim to a real scratch file system; faults, short transfers, EINTR, crashes are injected there'

PROPS = {
    'C01': dict(
        quick=dict(count=7436, budget=60), thorough=dict(count=1000000, budget=780),
        rule='one run = one history of tokenize calls (with interrupts at the k-th event inside, failing allocations from the k-th on, failing plugins, failing debug sinks, bad arguments) on the tokenizers of one dictionary; every answer is compared with the same call in a fresh process. An evaluation is one compared answer. Non-trivial: at least two judged operations.',
        distinct='distinct (world, sequence of operation kinds, code locations of the injected exceptions)',
        time='the clocks of 15 to 40 in 100 processes jump: each reading moves on by anything up to nine days, and the time of day also jumps back ("simulated hours" in the statistics)',
        real=LIB, stub='failing plugins and debug sinks are test doubles; asynchronous exceptions are raised by the trace function'),
}
PROPS['C02'] = dict(
    quick=dict(count=12896, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = 2 to 4 threads, each with its own tokenizer of one shared dictionary, tokenizing and reading everything, under one seeded schedule (random, hot-spot or PCT policy; preemption at calls, and lines of library code and at locks), sometimes with an exception raised inside one thread; each answer is compared with the same call alone in a fresh process. Non-trivial: at least two context switches.',
    distinct='distinct interleavings: hash of the sequence of (thread switched to, function, line)',
    real=LIB + '; real threads, one running at a time', stub='threading.Lock/RLock and time.sleep are simulated for the threads of the run')
PROPS['C03'] = dict(
    quick=dict(count=23488, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one history in which morpheme lists, morphemes and splits are kept and read late, in random order, between further calls, calls and reads interrupted inside or short of memory, cache turnover, garbage collections, dropped tokenizers, closed or dropped dictionaries; each read is compared with what a fresh process gives for the same call. An evaluation is one compared read. Non-trivial: at least two reads.',
    distinct='distinct (world, sequence of operation kinds, code locations of the injected exceptions)',
    time='the clocks of 15 to 40 in 100 processes jump: each reading moves on by anything up to nine days, and the time of day also jumps back ("simulated hours" in the statistics)',
    real=LIB, stub='asynchronous exceptions are raised by the trace function')
PROPS['C04'] = dict(
    quick=dict(count=12916, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one history of opening (valid settings, invalid settings, openings interrupted at the k-th event or short of memory from the k-th allocation on), using, closing and dropping dictionaries with different settings, files, resource directories and dict types in one process; each opening and each answer is compared with a process that does only that. Non-trivial: more than two compared outcomes.',
    distinct='distinct (openings, order of operations, code locations of the injected exceptions)',
    time='the clocks of 15 to 40 in 100 processes jump: each reading moves on by anything up to nine days, and the time of day also jumps back ("simulated hours" in the statistics)',
    real=LIB, stub='the sudachidict_* packages are stand-ins with small dictionaries')
PROPS['C05'] = dict(
    quick=dict(count=5764, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = 2 to 4 threads that open dictionaries (some with settings that must fail) and use them, under one seeded schedule, sometimes with an exception raised inside one thread; each opening and answer is compared with a process that does only that. Non-trivial: at least two context switches.',
    distinct='distinct interleavings: hash of the sequence of (thread switched to, function, line)',
    real=LIB + '; real threads, one running at a time', stub='threading.Lock/RLock are simulated for the threads of the run; module imports are done before the threads start; sudachidict_* packages are stand-ins')
CLI = 'the sudachipy command line (main), its builders, dartsclone, CPython file I/O; real files in a scratch directory'
PROPS['C06'] = dict(
    quick=dict(count=47376, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one build or ubuild command with valid or bad sources and a previous output (none, old, longer, garbage, link, the system dictionary itself), with failing, torn, short and interrupted system calls, a kill or an interruption (SIGINT) at a system call, an exception at the k-th event, or failing allocations from the k-th on; then the output is compared with the old content and the fault-free new one. Each crash point with one possible disk image after power loss is one further evaluation. Non-trivial: at least one fault fired.',
    distinct='distinct (sources, previous output, fault plan, interrupt point, power-loss seed)',
    time='the clock is simulated and stands still at one value during the command', real=CLI,
    stub=SHIM + '; the disk after power loss is a model: fsynced data and directory changes survive, later ones survive in any part')
PROPS['C07'] = dict(
    quick=dict(count=3284, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = random sources (a system lexicon, a matrix, up to 15 user lexicons, each in one or several files) built by the command line, some builds under failing, short, torn and interrupted system calls; what reports success is opened and every entry, parameter, split, connection cost and lookup is compared with the source model, and headwords are tokenized. An evaluation is one compared word, cost, lookup or morpheme. Non-trivial: the dictionaries were built and read back.',
    distinct='distinct (source seed, source features, fault plans)',
    time='the clock is simulated and stands still at one value during each command', real=CLI + '; dictionary loading and the tokenizer', stub=SHIM)
ENV = 'interpreters of different hash seeds and environments (locales, optimisation levels, allocators) that fork a child per process of the run, at fixed addresses'
PROPS['C08'] = dict(
    quick=dict(count=9536, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = up to 3 processes of different hash seed, environment, heap history, umask and collector setting, each building some of up to 3 sources (given in one or several files) one after the other, with chopped and interrupted transfers, jumping clocks, different paths and previous outputs, and builds that are interrupted, short of memory or fail in between; every successful output is compared with a plain build. An evaluation is one build. Non-trivial: at least one build was compared or failed on purpose.',
    distinct='distinct runs (sources, processes, faults)',
    time='clock readings between 1970 and 2255 with jumps up to 3 years both ways; the stored creation time is compared with the readings served',
    real=CLI + '; ' + ENV, stub=SHIM + '; the clock is simulated')
PROPS['C09'] = dict(
    quick=dict(count=7228, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = 2 to 4 processes of different hash seed, environment (locale, optimisation, allocator), heap history, collector setting and working directory, each opening the same dictionaries (many with equal costs) and analysing the same texts in its own order, with repetitions, re-openings, calls that are interrupted or short of memory and the command line in between; every outcome is compared with that of a fresh process. An evaluation is one compared outcome.',
    distinct='distinct runs (dictionaries, texts, processes)',
    time='the clocks of 15 to 40 in 100 processes jump: each reading moves on by anything up to nine days, and the time of day also jumps back ("simulated hours" in the statistics)',
    real=LIB + '; ' + ENV, stub='the sudachidict_* packages are stand-ins with small dictionaries')
PROPS['C10'] = dict(
    quick=dict(count=11304, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one tokenize command over standard input or files, to standard output or -o, with settings, encodings and sizes that vary, under failing, short, torn, interrupted reads, writes, opens and closes, transient or lasting, kills, interruptions (SIGINT) inside system calls, exceptions inside the library, failing allocations, undecodable and unreadable input, input that is not there yet on a descriptor that does not block, closed standard streams, also in interpreters of other locale and optimisation level; its status and every byte written are compared with the result rendered from fresh tokenizations. Non-trivial: a fault fired.',
    distinct='distinct (dictionary, inputs, fault plan, transfer sizes, interrupt point, output, encoding)',
    real='the sudachipy command line (main), dictionary loading, the tokenizer, CPython text and file I/O', stub=SHIM + '; the end of the interpreter (atexit, flushing of standard output, status 120) is played as CPython does it')
PROPS['C11'] = dict(
    quick=dict(count=8216, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one input given to the tokenize command in up to 3 deliveries (pieces of one byte, pieces around line ends and inside characters, interrupted calls, reads that find nothing yet on a descriptor that does not block, short writes of the output), also in interpreters of other locale and optimisation level; the output is compared with the result rendered from fresh tokenizations, and at every read of standard input the results of all complete lines received so far must have been written. An evaluation is one delivery or one read.',
    distinct='distinct (dictionary, input, deliveries)',
    time='time passes between two reads of standard input; what must have happened by then is checked at each of them',
    real='the sudachipy command line (main), dictionary loading, the tokenizer, CPython text and file I/O', stub=SHIM + '; the end of the interpreter (atexit, flushing of standard output) is played as CPython does it')
PROPS['C12'] = dict(
    quick=dict(count=12120, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one history of opening (valid, invalid, interrupted, short of memory, with failing system calls), using, interrupting, closing and dropping dictionaries, of forked processes and commands that use the same files, in a private copy of the dictionaries, on a writable or a read-only file system; every system call that changes a file, every change of content, metadata or directory, and every answer that differs from that of a fresh process is a violation. An evaluation is one compared outcome.',
    distinct='distinct (openings, operations)',
    real=LIB, stub=SHIM + '; the read-only file system refuses every call that would change it')
PROPS['C13'] = dict(
    quick=dict(count=44936, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one history of opening dictionaries (some openings invalid, interrupted at the k-th event, short of memory from the k-th allocation on, or with a failing or short system call at the k-th call), creating tokenizers, analysing (interrupted too), closing (repeatedly, interrupted, while tokenizers and results are held) and dropping; or (one run in eight) 2 to 3 threads under one seeded schedule that use, close, drop and reopen shared dictionaries, where what they get must be right or an exception after a closing began; every close must succeed, and the descriptors and mappings of the process may only be those of dictionaries that are still open or used. An evaluation is one close or one look at the descriptors and mappings.',
    distinct='distinct (openings, operations)',
    real=LIB, stub=SHIM + '; garbage collection runs at chosen points')
PROPS['C14'] = dict(
    quick=dict(count=5584, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = up to 8 openings of a dictionary of which one or two files were cut short (any byte, bytes around the section boundaries, the last bytes), each in a process of its own, followed by analyses that read everything, or by a ubuild against it; each must raise or be as with the intact files. An evaluation is one truncated dictionary. Every run is non-trivial.',
    distinct='distinct sets of (dictionary, file, cut position)',
    real=LIB, stub='the cut files are produced by the harness: any prefix of the file')
PROPS['C15'] = dict(
    quick=dict(count=3608, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = 1 to 3 processes that rebuild one dictionary path (different sources, also such that the files have the same size, some killed at a step, with failing system calls, or with bad sources), 1 to 3 processes that open that path, analyse (with tokenizers made then or later, also in a forked worker) and close, and sometimes a ubuild that reads it, interleaved at every system call on the files and at chosen lines of library code; every opening must succeed with one version that may be there at that time, every answer must be of that version, and in the end the path must hold a complete version that no successful build has replaced. An evaluation is one opening, answer or final content. Non-trivial: at least two process switches.',
    distinct='distinct interleavings: hash of the sequence of (process, system call or line)',
    real='the sudachipy command line (main), its builders, dictionary loading, the tokenizer, dartsclone, CPython; real processes, one running at a time; real files in a scratch directory',
    stub=SHIM + '; the clock and getrandom are simulated; waiting for a file lock gives the turn to another process')
PROPS['C16'] = dict(
    quick=dict(count=6000, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = up to 12 openings of up to 2 dictionaries, of which some meet failing, short and interrupted system calls (open, read, mmap, close, stat; transient or lasting) or an interruption (SIGINT) in one on any of their files, an exception at the k-th event, or failing allocations from the k-th on, and others none; what opens must answer as in a process without faults, and what meets no fault must open. An evaluation is one opening or answer. Non-trivial: a fault fired.',
    distinct='distinct (openings, fault plans, transfer sizes, interrupt points)',
    real=LIB, stub=SHIM + '; sudachidict_* packages are stand-ins with small dictionaries')
PROPS['C17'] = dict(
    quick=dict(count=3164, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = either a parent that opens dictionaries and forks up to 3 workers (also workers of workers) at any point between calls, all going on in any interleaving of file system calls and of lines of library code, ending normally, by dropping or closing everything, through atexit, by os._exit, by SIGKILL of their own or at any gate, while the dictionary files may be replaced by others; or a process with up to 4 threads, one of which forks up to 3 workers while the others are stopped anywhere in an opening or a call. Every answer, also to results read again, must be that of a process that does nothing else. An evaluation is one opening or answer. Non-trivial: two switches at least, or a fork in the middle of something.',
    distinct='distinct executions, by digest of the sequence of (process, gate) or (thread, line)',
    real=LIB + '; real forked processes', stub=SHIM + '; who runs: simulator; sudachidict_* packages are stand-ins with small dictionaries')

PROPS['C18'] = dict(
    quick=dict(count=1500, budget=60), thorough=dict(count=1000000, budget=780),
    rule='one run = one list of operations (analyses that succeed, are interrupted at the k-th event, fail in plugins or debug sinks; splits; openings that succeed, fail, are interrupted or meet failing system calls; builds that succeed, fail or are interrupted; analyses of texts never seen before and of texts that grow), repeated in one process; after each round everything is dropped and collected, and the number of live objects and of allocated memory blocks must stop growing; or (one run in twelve) the tokenize command given the same lines again and again, looked at whenever it asks for more. An evaluation is one measured round.',
    distinct='distinct (openings, operations)',
    real=LIB, stub=SHIM + '; asynchronous exceptions are raised by the trace function; garbage collection runs at chosen points')
