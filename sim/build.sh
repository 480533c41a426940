#!/bin/bash
# Builds the simulator against /repo's working tree into /verif/build, three times: as users test
# (checked), as users submit (optimised), and with every plain memory access of the library visible
# to the simulator (probed).
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS=
unset CARGO_BUILD_TARGET RUSTC CARGO_INCREMENTAL SIM_PROBE RUSTC_BOOTSTRAP
build=$here/../build
mkdir -p "$build"
exec 9>"$build/.lock"
flock 9
cd "$here/harness"
sum=$(cat "$here"/simrt/Cargo.toml "$here"/simstd/Cargo.toml "$here"/simrt/src/*.rs "$here"/simstd/src/*.rs "$here/wrap.sh" "$here/harness/Cargo.toml" | sha256sum)
one() { # target-dir profile flag
  export CARGO_TARGET_DIR=$1
  mkdir -p "$1"
  local stamp=$1/$2/simstd.stamp log=$1/$2.log
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    # rust_cp sees simstd through the wrapper, so cargo does not know that it depends on it.
    RUSTC_WRAPPER= cargo clean -q $3 -p rust-cp -p simstd -p simrt -p harness 2>/dev/null || true
    rm -f "$1/$2"/deps/libsimstd-*
  fi
  export RUSTC_WRAPPER=$here/wrap.sh
  if ! { cargo build -q --offline $3 -p simstd && cargo build -q --offline $3; } >"$log" 2>&1; then
    cat "$log" >&2
    return 1
  fi
  echo "$sum" > "$stamp"
}
# Whether this compiles is an observation, not a condition.
empty() {
  rm -f "$build/release/examples/empty_trace"
  CARGO_TARGET_DIR=$build RUSTC_WRAPPER=$here/wrap.sh cargo build -q --offline --release --example empty_trace >"$build/empty.log" 2>&1 || true
}
(one "$build" debug "" && one "$build" release --release && empty) & a=$!
(export SIM_PROBE=1; one "$build/probe" debug "") & b=$!
wait $a; wait $b
