#!/bin/sh
# Nothing is cached between runs: every check compiles its harness from /repo's working tree.
set -e
command -v clang++ >/dev/null
command -v java >/dev/null
command -v python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/evidence"
echo ready
