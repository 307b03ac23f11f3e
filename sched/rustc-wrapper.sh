#!/bin/bash
# Compiles the project's crates with a callback at every basic block and memory access.
rustc=$1; shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name=$a
    prev=$a
done
case "$name" in
lindera*)
    exec "$rustc" "$@" -C embed-bitcode=no -C lto=off -C passes=sancov-module \
        -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
