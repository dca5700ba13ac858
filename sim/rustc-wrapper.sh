#!/bin/sh
# Adds a scheduling point at every basic-block edge of the code under test (LLVM sancov callbacks);
# every other crate is compiled as usual.
rustc="$1"; shift
case " $* " in
  *" --crate-name snips_nlu_lib "*|*" --crate-name snips_nlu_ffi "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=4 ;;
esac
exec "$rustc" "$@"
