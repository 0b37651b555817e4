#!/bin/sh
# RUSTC_WRAPPER: compile the code under test with a callback on every control-flow edge.
# Generic code is never shared between crates: otherwise the simulator could link instrumented copies of library
# functions from the code under test and be preempted in the middle of its own bookkeeping.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  async_io|polling|parking|concurrent_queue|async_lock|event_listener|event_listener_strategy|simg)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zshare-generics=n -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  simp|simk|simw)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zshare-generics=n ;;
esac
exec "$rustc" "$@"
