#!/bin/sh
# RUSTC_WRAPPER: compiles the code under test (and the concurrent code it runs on) with a callback on every
# control-flow edge, which is where the simulator may preempt the running thread. Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  rusty_source_map|source_map_mappings|rayon|rayon_core|crossbeam_deque|crossbeam_epoch|crossbeam_utils|lazy_static)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
