#!/bin/sh
# RUSTC_WRAPPER: instruments the library (and the thin driver in which its generics are instantiated) only.
# TRACE_MODE=cov: LLVM SanitizerCoverage (edges, loads, stores, address computations).
# TRACE_MODE=tsan: LLVM ThreadSanitizer instrumentation (every shared memory access) with the run time of rt.
rustc="$1"; shift
name=""
p=""
for a in "$@"; do [ "$p" = "--crate-name" ] && name="$a"; p="$a"; done
case "$TRACE_MODE:$name" in
 cov:rt) exec "$rustc" "$@" -C force-frame-pointers=yes ;;
 cov:crypto_pure|cov:byteorder|cov:drv)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores -C llvm-args=-sanitizer-coverage-trace-geps ;;
 tsan:crypto_pure|tsan:byteorder|tsan:drv)
  exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Zshare-generics=off -Cunsafe-allow-abi-mismatch=sanitizer -C llvm-args=-tsan-instrument-read-before-write ;;
 tsan:*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
