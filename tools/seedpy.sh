#!/bin/bash
# tools/seedpy.sh ID: tries a planted bug in the Python wrapper (seeded/ID holds everything it needs).
set -eu
cd "$(dirname "$0")/.."
export SEED_DIR="$PWD/seeded/$1"
t=$(mktemp -d /tmp/seedtry.XXXXXX); trap 'rm -rf "$t"; git -C /repo checkout -q -- .' EXIT
cp -r "$SEED_DIR" "$t/demo"; rm "$t/demo/patch.diff" "$t/demo/meta.json"
cd "${REPO:-/repo}"; [ -z "$(git status --porcelain)" ] || { echo "not clean"; exit 1; }
bash "$t/demo/demo.sh" > "$t/clean.log" 2>&1 && echo "clean: demo exits 0 (right)" || { echo "clean: demo FAILS"; cat "$t/clean.log"; exit 1; }
git apply "$SEED_DIR/patch.diff"
if bash "$t/demo/demo.sh" > "$t/bad.log" 2>&1; then echo "patched: demo still exits 0 (NOT SHOWN)"; git checkout -q -- .; exit 1; else echo "patched: demo exits $?"; tail -3 "$t/bad.log" | cut -c1-400; fi
git checkout -q -- .
