#!/bin/bash
# C compiler for the sanitizer builds: instruments the FFT library, and nothing that runs at build time
case "$PWD" in
*/fftw-src*/out/*|*/out/src*) exec clang -g -fno-omit-frame-pointer -fsanitize="$CCSAN" "$@";;
*) exec clang "$@";;
esac
