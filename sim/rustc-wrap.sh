#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage edge callbacks to the code under test only.
rustc="$1"; shift
for a in "$@"; do
  case "$a" in
    glmdrv|ndarray_glm)
      exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  esac
done
exec "$rustc" "$@"
