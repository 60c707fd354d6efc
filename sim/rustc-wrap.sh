#!/bin/bash
# RUSTC_WRAPPER: compiles crates `raki` and `raki_glue` (and nothing else) with LLVM's coverage and thread passes, so
# that every basic block, every access to memory another caller could see and every atomic operation
# of the code under test calls into the simulator (which supplies all of these functions itself).
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && { [ "$a" = "raki" ] || [ "$a" = "raki_glue" ]; }; then
    exec "$rustc" "$@" "-Cpasses=forceattrs tsan-module function(tsan) sancov-module" \
      -Cllvm-args=-force-attribute=sanitize_thread \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-handle-cxx-exceptions=0 \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc \
      -Ccodegen-units=1 --cap-lints=allow
  fi
  prev="$a"
done
exec "$rustc" "$@"
