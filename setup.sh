#!/bin/bash
# Nothing to build: the checks build what they need from /repo's sources.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replay
for t in goto-cc goto-instrument cbmc gcc clang python3; do command -v $t >/dev/null; done
