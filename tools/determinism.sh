#!/bin/bash
# determinism.sh WORKDIR [N] [SEED] [PROPERTY...]: compares the executions of N seeds per property between
#  - one process that runs them all,
#  - three processes that share them (other neighbours, other history of the process), with four processors each,
#  - five processes with a small heap (garbage collections at other moments).
# WORKDIR is the result of sim/build.sh.
w=$1; n=${2:-2000}; seed=${3:-1}; shift; shift; shift
[ -x "$w/harness" ] || { echo "usage: $0 WORKDIR [N] [SEED] [PROPERTY...]"; exit 2; }
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
bad=0; sum=0
one() { # one NAME PARTS PROCS PROPERTY
 for k in $(seq 0 $(($2 - 1))); do
  "$w/harness" worker -prop $4 -seed $seed -from $k -step $2 -to $n -procs $3 -recheck 1000000000 -each "$t/$1.$4.$k" </dev/null >/dev/null 2>"$t/err.$1.$4.$k" &
 done
 wait
 cat "$t/$1.$4."* | sort -n > "$t/$1.$4"
}
for p in ${*:-$(cat "$here/checks.txt")}; do
 one a 1 1 $p
 one b 3 4 $p
 export GOGC=10 GODEBUG=gcstoptheworld=1
 one c 5 2 $p
 unset GOGC GODEBUG
 k=$(wc -l < "$t/a.$p"); sum=$((sum + k))
 if cmp -s "$t/a.$p" "$t/b.$p" && cmp -s "$t/a.$p" "$t/c.$p"; then echo "$p $k seeds identical in 3 partitions, $(cut -d' ' -f2 "$t/a.$p" | sort -u | wc -l) distinct executions"
 else echo "$p DIFFERS: $(diff "$t/a.$p" "$t/b.$p" | head -3) $(diff "$t/a.$p" "$t/c.$p" | head -3)"; bad=1; fi
done
echo "total $sum seeds"
exit $bad
