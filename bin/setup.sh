#!/bin/sh
# nothing is built ahead: every check rebuilds wcpl and its library from /repo's current sources
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
python3-vt -c 'import z3' && command -v clang cbmc gcc wasm-ld wasmtime >/dev/null 2>&1 || true
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
