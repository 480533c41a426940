#!/bin/bash
# RUSTC_WRAPPER: compiles rust_cp with the simulator's std in place of the real one.
# With SIM_PROBE set, rust_cp and the harness (where generic code of rust_cp is instantiated) also get
# LLVM's thread-sanitizer pass, whose calls before every plain memory access go to simrt::probe.
# Every other crate is compiled unchanged.
rustc=$1; shift
prev= crate=
for a in "$@"; do
  [ "$prev" != "--crate-name" ] || crate=$a
  prev=$a
done
more=()
if [ "$crate" = rust_cp ]; then
  dir=
  for b in "$@"; do case "$b" in dependency=*) dir=${b#dependency=};; esac; done
  std=$(ls "$dir"/libsimstd-*.rlib 2>/dev/null | head -1)
  [ -n "$std" ] || { echo "wrap.sh: simstd not built in $dir" >&2; exit 1; }
  more+=(--extern "std=$std")
fi
if [ -n "$SIM_PROBE" ] && [[ $crate == rust_cp || $crate == harness ]]; then
  export RUSTC_BOOTSTRAP=1
  more+=(--cfg probed -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer)
  for o in memintrinsics func-entry-exit; do more+=("-Cllvm-args=-tsan-instrument-$o=0"); done
fi
exec "$rustc" "$@" "${more[@]}"
