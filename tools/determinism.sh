#!/bin/sh
# tools/determinism.sh PID RUNS SEED...: same seeds, other hash seed and worker count, identical logs
cd "$(dirname "$0")/.." || exit 2
P=$1; N=$2; shift 2
D=$(mktemp -d)
for s in "$@"; do
  PYTHONHASHSEED=0 bin/check $P --runs $N --seed $s --dump $D/a >/dev/null
  PYTHONHASHSEED=77 bin/check $P --runs $N --seed $s --workers 5 --dump $D/b >/dev/null
  PYTHONHASHSEED=5 bin/check $P --runs $N --seed $s --workers 3 --dump $D/c >/dev/null
  if cmp -s $D/a $D/b && cmp -s $D/a $D/c; then echo "$P seed $s: identical ($(wc -l < $D/a) runs)"; else echo "$P seed $s: DIFFERENT"; diff $D/a $D/b | head -4 | cut -c1-600; diff $D/a $D/c | head -4 | cut -c1-600; fi
done
rm -r "$D"
