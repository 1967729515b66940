#!/bin/bash
# RUSTC_WRAPPER: compiles the code under test (and the crates it is made of) with
# SanitizerCoverage callbacks, which are the simulator's preemption points. The
# harness itself is not instrumented.
rustc="$1"; shift
extra=(); prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then
    case "$a" in
      nobject_rs|nom|log)
        extra=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3
               -Cllvm-args=-sanitizer-coverage-trace-pc-guard
               -Cllvm-args=-sanitizer-coverage-trace-loads
               -Cllvm-args=-sanitizer-coverage-trace-stores);;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@" "${extra[@]}"
