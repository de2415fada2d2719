#!/bin/bash
# RUSTC_WRAPPER: gives the crates under test (and the simulated caller's functions) SanitizerCoverage
# callbacks, which the simulator uses as preemption points. Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""; host=1
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--target" ] && host=0
  case "$a" in --target=*) host=0;; esac
  prev="$a"
done
case "$name" in
  serde_json_path|serde_json_path_core|jpfuncs)
    if [ "$host" = 0 ]; then
      exec "$rustc" "$@" -Awarnings -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads \
        -Cllvm-args=-sanitizer-coverage-trace-stores
    fi;;
esac
exec "$rustc" "$@"
