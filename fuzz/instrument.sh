#!/bin/bash
# rustc wrapper: coverage instrumentation for the code under test and the parsers it reads files with
rustc="$1"
shift
name=
prev=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
chanoma | csv | csv_core | serde_yaml | yaml_rust | linked_hash_map)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1
    ;;
esac
exec "$rustc" "$@"
