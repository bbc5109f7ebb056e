#!/bin/bash
# rustc wrapper: coverage feedback for libFuzzer in the library under test only.
rustc="$1"; shift
case " $* " in
  *" --crate-name tofas "*|*" --crate-name tofas_extras "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
  *) exec "$rustc" "$@" ;;
esac
