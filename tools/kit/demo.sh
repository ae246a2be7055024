#!/bin/bash
# cwd: repository. exit 0 if the behaviour is right
H="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
python3 "$H/kbuild.py" "$H/demo.cpp" "$T/demo" -fsanitize=address || exit 9
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo"
