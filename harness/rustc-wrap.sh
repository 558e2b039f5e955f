#!/bin/bash
# RUSTC_WRAPPER of the guided build: the crate under test, and nothing else, is
# compiled with SanitizerCoverage (edge counters and comparison operands).
rustc="$1"; shift
for ((i = 1; i < $#; i++)); do
  if [ "${!i}" = "--crate-name" ]; then
    j=$((i + 1))
    if [ "${!j}" = "dumb_crypto" ]; then
      exec "$rustc" "$@" -Ccodegen-units=1 -Cembed-bitcode=no -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    fi
  fi
done
exec "$rustc" "$@"
