#!/bin/bash
# determinism.sh [RUNS] [SEEDS..]: runs every scenario's first RUNS runs of each seed several times, at
# different degrees of parallelism and in all builds, and compares the event histories.
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-400}; shift
seeds=${*:-1 2 3}
dir=$(mktemp -d /tmp/determinism.XXXXXX)
job() { # pass id seed build
  "$here/build/$4/harness" hashes "$2" "$3" 0 "$5" > "$6/$1-$2-$3-${4/\//.}"
}
export -f job; export here
for pass in 1:1 2:8 3:24; do
  for id in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20; do
    for s in $seeds; do for b in debug release probe/debug; do
      # C20 is never run in the probed build: callers would be stopped while they hold the real stream.
      [ $id = C20 ] && [ $b = probe/debug ] || echo "${pass%:*} $id $s $b $n $dir"
    done; done
  done | xargs -P "${pass#*:}" -L1 bash -c 'job "$@"' _
done
bad=0
for f in "$dir"/1-*; do
  r=$(basename "$f" | cut -c3-)
  for p in 2 3; do cmp -s "$f" "$dir/$p-$r" || { echo "differs: $r in pass $p"; diff "$f" "$dir/$p-$r" | head -3; bad=1; }; done
done
echo "$(cat "$dir"/1-* | wc -l) runs, each executed 3 times at 1, 8 and 24 processes: $([ $bad = 0 ] && echo identical || echo DIFFERENT)"
rm -rf "$dir"
exit $bad
