#!/bin/sh
# check.sh ID [quick|thorough] [--seconds=N]: builds the simulator with /repo's current sources, then runs the check.
# C41 runs inside a Python process, the simulator being a shared object there.
here=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp) || exit 2
case "$1" in C41) what=--lib ;; *) what="--bin simh" ;; esac
if ! (cd "$here/sim" && cargo build --release --offline --locked $what >"$log" 2>&1); then
    grep -E '^error' -A8 "$log" | head -60 >&2
    rm -f "$log"
    echo "the simulator does not build with the current sources" >&2
    exit 2
fi
rm -f "$log"
export VERIF_DIR="$here"
case "$1" in
C41) exec python3 "$here/sim/py/host.py" "$here/sim/target/release/libsimhpy.so" check "$@" ;;
*) exec "$here/sim/target/release/simh" check "$@" ;;
esac
