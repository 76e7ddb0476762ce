#!/bin/bash
# RUSTC_WRAPPER: counts edges in the crates under test and in the harness
rustc=$1; shift
case " $* " in
  *" --crate-name vp "*|*" --crate-name scale_value "*|*" --crate-name scale_decode "*|*" --crate-name scale_encode "*)
    exec $rustc "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
esac
exec $rustc "$@"
