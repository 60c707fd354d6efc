#!/bin/bash
# Proves determinism: the event-log hash of every run must not depend on process, worker count or
# repetition.  usage: determinism.sh [runs] [seeds]   (needs `check.py setup` first)
runs=${1:-600}; seeds=${2:-6}; bad=0; n=0
t=$(mktemp -d)
for b in debug release; do
  for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10; do
    for s in $(seq 1 "$seeds"); do
      /verif/target/$b/sim logs --prop $p --seed "$s" --runs "$runs" --workers 1 > "$t/ref"
      for w in 2 3 5 8 8; do
        env HOME=/ "A$w=$s" /verif/target/$b/sim logs --prop $p --seed "$s" --runs "$runs" --workers $w > "$t/got"
        n=$((n+1))
        cmp -s "$t/ref" "$t/got" || { echo "DIVERGES $b $p seed=$s workers=$w: $(diff "$t/ref" "$t/got" | grep -c '^<') of $runs"; bad=1; }
      done
    done
  done
done
rm -r "$t"
echo "$n comparisons of $runs runs, divergent=$bad"
exit $bad
