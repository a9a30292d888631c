"""Mutation of single expressions and statements, to see what the checks miss.

mutants.py list FILE...                 the mutants of these files, numbered
mutants.py tests OUT.json FILE...       which of them pass the repository's tests (8 at a time, in copies under /tmp/mut)
mutants.py checks OUT.json BUDGET C..   runs these checks on the survivors in OUT.json that no check has caught yet
"""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = os.environ.get('MUT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
TOK = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
       ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '//'), ast.FloorDiv: ('//', '*')}


def mutants_pyx(path):
    src = open(path, encoding='utf-8').read()
    lines = src.splitlines(keepends=True)
    res, seen = [], set()
    sub = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' and ', ' or '),
           (r' or ', ' and '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r' is not ', ' is '),
           (r' is (?!not)', ' is not '), (r'\bnot ', ''), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)),
           (r'\b([1-9]\d*)\b', lambda m: str(int(m.group(1)) - 1)), (r' \+= ', ' -= ')]
    doc = False
    for i, ln in enumerate(lines):
        t = ln.strip()
        if t.count('"""') == 1:
            doc = not doc
            continue
        if doc or not t or t.startswith(('#', 'import', 'from', 'cimport', 'def ', 'cdef class', 'class ', '"""', '@')):
            continue
        new = []
        for pat, to in sub:
            for m in re.finditer(pat, ln):
                new.append(ln[:m.start()] + (to(m) if callable(to) else to) + ln[m.end():])
        if not t.startswith(('if', 'for', 'while', 'else', 'elif', 'try', 'return', 'cdef', 'cpdef')) and not t.endswith((':', ',', '(')):
            new.append(ln[:len(ln) - len(ln.lstrip())] + 'pass\n')
        for x in new:
            if x != ln and (i, x) not in seen:
                seen.add((i, x))
                res.append({'line': i + 1, 'old': t[:80], 'new': x.strip()[:80], 'code': '', 'text': ''.join(lines[:i] + [x] + lines[i + 1:])})
    return res


def mutants(path):
    if path.endswith('.pyx'):
        return mutants_pyx(path)
    src = open(path, encoding='utf-8').read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode('utf-8')))
    b = src.encode('utf-8')

    def at(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def put(n, i, j, new):
        out.append((n.lineno, b[i:j].decode(), new, i, j))

    def text(n):
        return b[at(n):at(n, True)].decode()
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            i, j = at(n.left, True), at(n.comparators[0])
            mid = b[i:j].decode()
            t = TOK[type(n.ops[0])]
            for new in CMP[type(n.ops[0])]:
                put(n, i, j, mid.replace(t, new, 1))
        elif isinstance(n, ast.BoolOp):
            i, j = at(n.values[0], True), at(n.values[1])
            mid = b[i:j].decode()
            put(n, i, j, mid.replace('and', 'or', 1) if isinstance(n.op, ast.And) else mid.replace('or', 'and', 1))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, at(n), at(n, True), str(n.value + 1))
            if n.value:
                put(n, at(n), at(n, True), str(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, at(n), at(n, True), str(not n.value))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            i, j = at(n.left, True), at(n.right)
            a, c = BIN[type(n.op)]
            put(n, i, j, b[i:j].decode().replace(a, c, 1))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, at(n.test), at(n.test, True), 'not (%s)' % text(n.test))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, at(n), at(n, True), 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, at(n), at(n, True), 'return')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg not in ('help', 'description', 'metavar', 'prog', 'title', 'dest', 'nargs'):
                    prev = [x for x in n.args] + [q.value for q in n.keywords if at(q.value) < at(k.value)]
                    if prev:
                        i = max(at(x, True) for x in prev)
                        put(k.value, i, at(k.value, True), '')
    seen, res = set(), []
    for ln, old, new, i, j in sorted(out, key=lambda x: (x[3], x[4], x[2])):
        m = (b[:i] + new.encode() + b[j:]).decode()
        if m in seen or m == src:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        line = src.splitlines()[ln - 1].strip()
        res.append({'line': ln, 'old': old[:80], 'new': new[:80], 'code': line[:110], 'text': m})
    return res


TEST = r'''
. /opt/vp/env.sh
cd "$1" || exit 9
export PYTHONPATH="$1" TMPDIR="$1/tmp.work"
mkdir -p "$TMPDIR"
rm -f tests/resources/*.dic
if [ "${2%.pyx}" != "$2" ]; then
    rm -f "${2%.pyx}.c" "${2%.pyx}".*.so
    $PY setup.py build_ext --inplace >/dev/null 2>&1 || exit 1
fi
R=tests/resources
s() { timeout 60 $PY -m sudachipy.command_line "$@" >/dev/null 2>&1; }
s build -o $R/system.dic -d "the system dictionary for the unit tests" -m $R/dict/matrix.def $R/dict/lex.csv || exit 1
s ubuild -o $R/user.dic -s $R/system.dic $R/dict/user.csv || exit 1
s ubuild -o $R/large_user.dic -s $R/system.dic $R/dict/large_user.csv || exit 1
for f in $(find tests -name '*test*.py' | sort); do
    timeout -k 5 100 $PY -m pytest -q -x -p no:cacheprovider --timeout=60 "$f" >/dev/null 2>&1 || { [ $? = 5 ] || exit 1; }
done
exit 0
'''


def tests(out, files):
    work = '/tmp/mut'
    shutil.rmtree(work, ignore_errors=True)
    pool = Queue()
    n = int(os.environ.get('MUT_JOBS', '8'))
    for k in range(n):
        shutil.copytree(REPO, '%s/%d' % (work, k), ignore=shutil.ignore_patterns('.git', '__pycache__'))
        pool.put('%s/%d' % (work, k))
    todo = [(f, m) for f in files for m in mutants(os.path.join(REPO, f))]
    print(len(todo), 'mutants')
    res = []

    def one(a):
        f, m = a
        d = pool.get()
        p = os.path.join(d, f)
        try:
            open(p, 'w', encoding='utf-8').write(m['text'])
            r = subprocess.run(['bash', '-c', TEST, 'x', d, f], stdin=subprocess.DEVNULL, capture_output=True).returncode
            if r == 0:
                res.append(dict(m, file=f, caught=None, ran=[]))
        finally:
            shutil.copy(os.path.join(REPO, f), p)
            if f.endswith('.pyx'):
                for x in glob.glob(p[:-4] + '.c') + glob.glob(p[:-4] + '.*.so'):
                    os.remove(x)
            pool.put(d)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
    res.sort(key=lambda m: (m['file'], m['line'], m['new']))
    json.dump(res, open(out, 'w'), ensure_ascii=False, indent=0)
    print(len(res), 'survive the tests')
    shutil.rmtree(work, ignore_errors=True)


def checks(out, budget, props):
    res = json.load(open(out))
    d = '/tmp/mut/c'
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('__pycache__'))
    only = os.environ.get('MUT_FILE')
    sys.path.insert(0, VERIF)
    from simkit import build as B
    B.REPO = d
    base = B.build_lib()
    for m in res:
        if m['caught'] or only and m['file'] not in only.split(','):
            continue
        p = os.path.join(d, m['file'])
        open(p, 'w', encoding='utf-8').write(m['text'])
        lib = os.path.join(B.BUILD, 'lib-' + B.tree_hash())
        if not os.path.exists(lib) and not m['file'].endswith('.pyx'):
            shutil.copytree(base, lib)
            shutil.copy(p, os.path.join(lib, m['file']))
        for c in props:
            if c in m['ran']:
                continue
            r = subprocess.run([VERIF + '/run.sh', c, '--tier', 'quick', '--budget', budget], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_SHRINK='1'))
            m['ran'].append(c)
            if r.returncode:
                cl = [x for x in r.stdout.splitlines() if x.startswith('class')] or [(r.stdout + r.stderr)[-150:]]
                m['caught'] = c + ' ' + cl[0][:120]
                break
        shutil.copy(os.path.join(REPO, m['file']), p)
        shutil.rmtree(lib, ignore_errors=True)
        os.utime(base)
        print('%-8s %s:%d %r -> %r   | %s' % ('caught' if m['caught'] else 'MISSED', os.path.basename(m['file']), m['line'], m['old'], m['new'], m['code']))
        sys.stdout.flush()
        json.dump(res, open(out, 'w'), ensure_ascii=False, indent=0)
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if sys.argv[1] == 'list':
    for f in sys.argv[2:]:
        for k, m in enumerate(mutants(os.path.join(REPO, f))):
            print(f, k, m['line'], repr(m['old']), '->', repr(m['new']), '|', m['code'])
elif sys.argv[1] == 'tests':
    tests(sys.argv[2], sys.argv[3:])
else:
    checks(sys.argv[2], sys.argv[3], sys.argv[4:])
