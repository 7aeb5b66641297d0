#!/bin/bash
# Builds tomllib (and the crate of calls to it) with the counters of the coverage-guided search, and everything else as it is.
rustc=$1
shift
name= last= lib=
for a in "$@"; do
    [ "$last" = --crate-name ] && name=$a
    [ "$last" = --crate-type ] && lib=$a
    last=$a
done
case "$name:$lib" in
tomllib:*lib | calls:*lib)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
