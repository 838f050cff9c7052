#!/bin/bash
# RUSTC_WRAPPER: instruments the crates of /repo (both are called "layout").
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "layout" ]; then hit=1; fi
  prev=$a
done
if [ -n "$hit" ]; then
  set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores
fi
exec "$@"
