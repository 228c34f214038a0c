#!/bin/bash
# cwd: the repository.  exit 0: behaviour holds, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'find "$t" -delete' EXIT
bash "$here/build.sh" "$PWD" "$here/demo.cpp" "$t/demo" || exit 2
timeout 60 "$t/demo"
