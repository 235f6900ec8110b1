#!/bin/bash
# check.sh PROPERTY: rebuild the simulator with the server in /repo's working
# tree, then search. Exit 0: held; 1: violation; anything else: no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
log=$(mktemp /tmp/rsim-build.XXXXXX) || exit 2
if ! ( flock 9; exec ./sim/build.sh ) 9>sim/.lock >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "error: the simulator does not build"
    exit 2
fi
rm -f "$log"
exec ./sim/target/x86_64-unknown-linux-gnu/debug/rsim check "$1"
