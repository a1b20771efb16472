#!/bin/sh
# Instruments the crates under test and the harness.
rustc=$1; shift
case " $* " in
*" --crate-name tower_lsp "*|*" --crate-name harness "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
esac
exec "$rustc" "$@"
