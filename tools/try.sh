#!/bin/bash
# try.sh PROP -R COMMIT | PATCH : run a check against a scratch copy with a change
# BASE: the repository to start from, /repo unless given
prop=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
base=${BASE:-/repo}
d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
git -C "$base" archive HEAD | tar -x -C "$d"
if [ "$1" = -R ]; then git -C "$base" show "$2" | (cd "$d" && patch -R -p1 -s) || exit 9; else (cd "$d" && patch -p1 -s < "$1") || exit 9; fi
cd "$here" && VERIF_REPO=$d python3 check.py "$prop" | tail -${TAIL:-12}
