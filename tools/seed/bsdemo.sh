#!/bin/bash
# Run with cwd at the repository. Exit 0: behaves; otherwise not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
inc=$(python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
gcc -g -O1 -w -shared -fPIC -fsanitize=address,undefined -fno-sanitize-recover=all -I"$inc" \
    detools/bsdiff.c -o "$d/bsdiff.so" || exit 2
cd "$d" && PYTHONDONTWRITEBYTECODE=1 ASAN_OPTIONS=detect_leaks=0 PYTHONMALLOC=malloc PYTHONPATH="$d:$here" \
    LD_PRELOAD="$(gcc -print-file-name=libasan.so) $(gcc -print-file-name=libubsan.so)" \
    timeout 200 python3 "$here/demo.py"
