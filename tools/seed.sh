#!/bin/bash
# tools/seed.sh ID [--no-verify]: completes seeded/ID (which holds patch.diff, meta.json, src/main.rs) with the common parts and tries it.
set -eu
cd "$(dirname "$0")/.."
d="seeded/$1"
rm -rf "$PWD/$d/stubs"; mkdir -p "$d/stubs"
cp -r sim/vendor sim/shims "$d/stubs/"
cp tools/kit/demo.sh tools/kit/Cargo.toml.in tools/kit/model.tgz "$d/"
cp tools/kit/src/support.rs "$d/src/"
sed 's/name = "simh"/name = "demo"/' sim/Cargo.lock > "$d/Cargo.lock"
grep -v -e rustc-wrapper -e rustflags -e '^\[build\]' sim/.cargo/config.toml > "$d/cargo-config.toml"
[ "${2:-}" = --no-verify ] && exit 0
export SEED_DIR="$PWD/$d"
t=$(mktemp -d /tmp/seedtry.XXXXXX); trap 'rm -rf "$t"; git -C /repo checkout -q -- .' EXIT
cp -r "$d" "$t/demo"; rm "$t/demo/patch.diff" "$t/demo/meta.json"
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
bash "$t/demo/demo.sh" > "$t/clean.log" 2>&1 && echo "clean: demo exits 0 (right)" || { echo "clean: demo FAILS"; cat "$t/clean.log"; exit 1; }
git apply "$SEED_DIR/patch.diff"
bash /opt/vp/build.sh > "$t/build.log" 2>&1 && echo "patched: builds" || { echo "patched: BUILD FAILS"; tail -20 "$t/build.log"; exit 1; }
bash /opt/vp/test.sh "$t/out.json" > "$t/test.log" 2>&1 || true
python3 - "$t/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
print('patched: tests', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()}, 'baseline', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
P
if bash "$t/demo/demo.sh" > "$t/bad.log" 2>&1; then echo "patched: demo still exits 0 (NOT SHOWN)"; exit 1; else rc=$?; echo "patched: demo exits $rc"; tail -5 "$t/bad.log" | cut -c1-600; [ $rc = 3 ] && exit 1; fi
exit 0
