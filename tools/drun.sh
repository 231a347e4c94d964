#!/bin/bash
# drun.sh <exe> args : run with the sanitizer environment of check.py
export ASAN_OPTIONS="detect_leaks=${LEAKS:-0}:max_malloc_fill_size=1073741824:malloc_fill_byte=255:free_fill_byte=238:max_free_fill_size=65536:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=41:abort_on_error=0:quarantine_size_mb=64" UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=42" VH_SCRATCH=/tmp/vdev
exec "$@"
