#!/bin/bash
# rustc wrapper: adds the simulator's call-outs to f256 and the thin op layer only.
rustc=$1; shift
case " $* " in
  *" --crate-name f256 "*|*" --crate-name f256ops "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1;;
  *) exec "$rustc" "$@";;
esac
