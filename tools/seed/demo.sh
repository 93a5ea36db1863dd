#!/bin/bash
# Run with cwd at the repository. Exit 0: behaves; otherwise not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -Ic -Ic/heatshrink -I"$here" \
    "$here/demo.c" c/detools.c c/heatshrink/heatshrink_decoder.c -llzma -o "$d/demo" || exit 2
cd "$d" && timeout 120 ./demo
