#!/bin/bash
# A rustc wrapper: the crates of /repo, built for the target (not for macros), get coverage counters.
case " $* " in
  *" --crate-name cubing "*" --target "* | *" --crate-name cubing_core "*" --target "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$@"
