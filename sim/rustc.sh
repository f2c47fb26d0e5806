#!/bin/bash
# rustc wrapper: obsidian and the application on it are compiled with sanitizer coverage
rustc=$1; shift
for a in "$@"; do
  case $prev$a in
    --crate-nameobsidian|--crate-namevapp)
      exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-pc-table \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
  esac
  prev=$a
done
exec "$rustc" "$@"
