"""Writes MANIFEST.json and known-findings.json."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simkit.info import PROPS

TECH = 'deterministic simulation with fault injection: '
T = {
    'C01': 'seeded histories with exceptions injected at the k-th event inside a call and failing plugins and sinks, against fresh-process oracle',
    'C02': 'seeded thread schedules (random, hot-spot, PCT) at line granularity, against fresh-process oracle',
    'C03': 'seeded histories of kept results with interrupts, cache turnover and closings in between, against fresh-process oracle',
    'C04': 'seeded histories of openings, failing and interrupted openings in one process, against fresh-process oracle',
    'C05': 'seeded thread schedules over concurrent openings, simulated locks, against fresh-process oracle',
    'C06': 'system-call faults, kills and power losses at every recorded system call of builds, against {old, complete new}',
    'C07': 'builds under short, torn, interrupted and failing system calls and interrupts, with the lexicon source as model',
    'C08': 'the same build in processes with different hash seeds, locales, clocks and under faults, compared byte for byte',
    'C09': 'the same calls in processes with different hash seeds, locales, histories and load orders, compared',
    'C10': 'the tokenize command with failing, short, full and closed outputs, against the fault-free output and exit status',
    'C11': 'the tokenize command on simulated pipes: chunked, delayed, stalled, failing inputs and slow readers, against a per-line model',
    'C12': 'seeded histories with faults and crashes on watched files, read-only storage; system-call log and content compared',
    'C13': 'seeded histories of openings, faults, closings and drops, and seeded thread schedules of closings and uses, against a reference count of descriptors and mappings',
    'C14': 'files torn at seeded places and by simulated lost writes, against the fault-free answers',
    'C15': 'seeded interleavings of building and reading processes at system calls and lines, kills and faults, against version model',
    'C16': 'system-call faults, short transfers and asynchronous exceptions in openings, against fresh-process oracle',
    'C17': 'seeded interleavings of forked processes at system calls and lines, forks inside thread schedules, kills, against fresh-process oracle',
    'C18': 'repeated rounds of seeded operations with interrupts, failing plugins, files and builds; live objects and memory blocks after each round',
}
NOTE = ('Seeded search, not proof: a clean run says that none of the simulated executions broke the property. Trusted: the '
        'simulator (simkit), the preloaded system-call shim and the kernel beneath it, CPython, and the oracle, which for %s. '
        'Thread preemption is at lines and calls of library code, not inside C code holding the GIL.')
O = {k: 'this property is the same library in a fresh process without faults' for k in T}
O.update({'C06': 'this property is the set of old content and content of a fault-free build', 'C07': 'this property is an independent reading of the source',
          'C10': 'this property is the output of a fault-free run', 'C13': 'this property is the list of what is still in use',
          'C12': 'this property is the content of the files before', 'C11': 'this property is the fault-free output per line', 'C18': 'this property is that what is measured after the rounds stops growing'})
NA = {
    'N01': 'pure function of text, mode and dictionary: no schedule, clock, I/O or fault in it that a simulator could vary. (The answers compared in C01-C05, C09, C17 would be affected only where histories or schedules change them.)',
    'N02': 'pure function of the lattice costs; deciding it needs enumeration or search over inputs against a reference Viterbi, not schedules or faults.',
    'N03': 'pure function of text and rewrite definition; no schedule, time or fault. (Faults while the definition is read are C16.)',
    'N04': 'pure function of the numeral sequence; no schedule, time or fault.',
    'N05': 'pure function of the definition file\'s content; no schedule, time or fault. (Faults while it is read are C16, hash order is C09.)',
    'N06': 'pure function of the source text; no schedule, time or fault. (What a refused build leaves behind is C06.)',
    'N07': 'pure function of the path and configuration; no schedule, time or fault.',
    'N08': 'pure function of dictionary content; no schedule, time or fault.',
}


def commit(start):
    for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
        h, _, s = l.partition(' ')
        if s.startswith('fix: ' + start):
            return h
    raise SystemExit('no commit: ' + start)


FIXED = [
    ('C01', 'clear the lattice before', 'a call that failed inside (plugin or sink error, Ctrl-C, MemoryError) left its nodes in the lattice; the next call on the tokenizer returned wrong morphemes or an error'),
    ('C02', 'read word infos without', 'word infos were read through the one position of the shared mmap; two threads got word infos of each other\'s words, or errors'),
    ('C05', 'open one dictionary at a time', 'config.settings is global and was shared by concurrent openings: a dictionary came up with the files or plugins of another one'),
    ('C06', 'let build and ubuild replace', 'a failed, killed or full-disk build left a truncated output file in the place of the old dictionary, or nothing'),
    ('C07', 'word ids of the 8th', 'the word ids of the 8th and later user dictionaries were written as signed int: an exception for any reference to itself'),
    ('C07', 'write the whole connection', 'a matrix that was not square was written or read with rows and columns confused'),
    ('C07', 'refuse parts of speech with', 'a part of speech with a comma was accepted and read back as another one'),
    ('C07', 'read part-of-speech strings', 'part-of-speech strings over 127 characters could be written but not read'),
    ('C07', 'decode unicode escapes', 'a source with \\\\u{...} escapes of other than 4 digits was taken over undecoded'),
    ('C07', 'count the length of strings', 'lengths were counted in code points and stored for UTF-16: text with supplementary characters read back cut off, everything after it shifted'),
    ('C08', 'read the connection matrix', 'the connection matrix was read in the encoding of the locale'),
    ('C09', 'visit a character', 'OOV candidates were made in set order: with equal costs the hash seed decided which of them was chosen'),
    ('C10', 'let the tokenize command', 'the command ended with status 0 although its output had not been written'),
    ('C13', 'let a closed or dropped', 'close() raised BufferError while a tokenizer existed, a second close() failed, and the global word info cache kept mappings alive for ever'),
    ('C18', 'do not add one more', 'every DictionaryBuilder added one more handler to the log: the messages of the n-th were printed n times, and the handlers were kept for ever'),
    ('C18', 'let the lattice grow only', 'texts of growing length made a tokenizer keep memory quadratic in their length'),
    ('C14', 'notice that a dictionary file', 'a dictionary that had been cut short opened and gave answers with wrong or empty parts'),
]
json.dump([{'property': p, 'status': 'fixed', 'commit': commit(s), 'what': w, 'line': 'fixed: property=%s %s %s' % (p, commit(s), w)}
           for p, s, w in FIXED], open(HERE + '/known-findings.json', 'w'), ensure_ascii=False, indent=1)
titles = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
json.dump({
    'version': 1, 'setup_cmd': './run.sh setup',
    'checks': [{'property': p, 'quick_cmd': './run.sh %s --tier quick' % p, 'thorough_cmd': './run.sh %s --tier thorough' % p,
                'evidence_file': 'evidence/%s.json' % p, 'technique': TECH + T[p], 'level': 'exploration', 'level_note': NOTE % O[p]}
               for p in sorted(PROPS)],
    'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
    'notes': 'No hooks in /repo: system calls are intercepted by a preloaded library, threads and asynchronous exceptions by the trace function. '
             './run.sh Cxx --replay FILE replays a violation.',
}, open(HERE + '/MANIFEST.json', 'w'), ensure_ascii=False, indent=1)
assert {t['id'] for t in titles} == set(PROPS) | set(NA)
