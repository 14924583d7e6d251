#!/bin/bash
# Builds the harness binaries from /repo's current working tree. Sourced by check.sh; run by itself as setup.
# VARIANTS: "plain" (target/) and "sched" (target-sh/: jxl's synchronisation operations under a controlled scheduler).
R="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR ARBTEST_BUDGET_MS SHUTTLE_SCHEDULER
mkdir -p "$R/out" "$R/evidence"
L="$R/out/build-$$.log"
rc=0
for v in ${VARIANTS:-plain sched}; do
  case $v in
    plain) T="$R/target"; F="";;
    sched) T="$R/target-sh"; F="--features sched";;
  esac
  BIN="$T/release/jxlmc"
  ( cd "$R/mc" && CARGO_TARGET_DIR="$T" cargo build --release --offline --quiet $F ) >"$L" 2>&1 || rc=1
  if [ $rc -ne 0 ]; then tail -40 "$L" >&2; fi
done
rm -f "$L"
[ $rc -eq 0 ]
