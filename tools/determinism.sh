#!/bin/bash
# tools/determinism.sh [count] [seed]: every check twice, with other numbers of workers; compares what each case did
cd "$(dirname "$0")/.." || exit 2
n=${1:-150}; seed=${2:-5}; bad=0
t=$(mktemp -d)
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18; do
    ./run.sh $p --count $n --seed $seed --budget 300 --workers 8 --digests $t/a >/dev/null 2>$t/err || { echo "$p: first run $?"; bad=1; }
    ./run.sh $p --count $n --seed $seed --budget 300 --workers 3 --digests $t/b >/dev/null 2>>$t/err || { echo "$p: second run $?"; bad=1; }
    python3 - $t/a $t/b $p <<'P'
import json, sys
a, b = (json.load(open(x)) for x in sys.argv[1:3])
d = [k for k in a if a[k] != b.get(k)]
print(sys.argv[3], len(a), 'cases', len(d), 'differ', d[:5])
sys.exit(bool(d))
P
    [ $? = 0 ] || bad=1
    cat $t/err
done
rm -rf "$t"
exit $bad
