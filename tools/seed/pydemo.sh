#!/bin/bash
# Run with cwd at the repository. Exit 0: behaves; otherwise not.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 200 python3 "$here/demo.py"
