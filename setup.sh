#!/bin/bash
# Nothing is kept between runs: every check builds what it needs in its own scratch folder.
# This only shows early that the tools the checks rely on are there and the code builds.
cd "$(dirname "$0")" || exit 2
for t in gcc clang /opt/venv/bin/python; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
chmod +x run
./run --selftest
