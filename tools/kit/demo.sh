#!/bin/bash
# Builds a small program against the crate in the current directory (with stand-ins for the dependencies that
# are not available offline) and runs it: exit 0 if the behaviour is right.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX")"
trap 'rm -rf "$work"' EXIT
cp -r "$here/stubs" "$here/src" "$here/Cargo.lock" "$work/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
mkdir "$work/.cargo" "$work/scratch"
sed 's|directory = "vendor"|directory = "stubs/vendor"|' "$here/cargo-config.toml" > "$work/.cargo/config.toml"
tar -xzf "$here/model.tgz" -C "$work/scratch"
cd "$work"
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2> build.log || { cat build.log >&2; echo "demo: does not build" >&2; exit 3; }
cd "$work/scratch"
rc=0
TMPDIR="$work/scratch" timeout 120 "$work/target/debug/demo" "$work/scratch/model" "$work/scratch" || rc=$?
echo "demo: exit $rc"
exit $rc
