#!/bin/bash
# replay.sh <file>: rebuilds the simulator from /repo and re-executes a replay file exactly.
# Exit 1 and a VIOLATION line if it reproduces, 0 if it does not.
f="$(realpath "$1")"; cd "$(dirname "$0")" || exit 2
v=$(sed -n 's/^  "variant": "\(.*\)",$/\1/p' "$f" | head -1)
case "$v" in all) b="rel dbg lite mid dflt lal"; v=rel ;; dbg|lite|mid|dflt|lal) b=$v ;; *) b=rel; v=rel ;; esac
for x in $b; do bash sim/build.sh $x >/dev/null 2>&1 || { echo "the $x build fails" >&2; exit 2; }; done
exec sim/target/$v/release/psim replay "$f"
