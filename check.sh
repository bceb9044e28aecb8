#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds from /repo's working tree, runs the simulator.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
case "$PROP" in C10) V="rel dbg lite mid dflt lal" ;; C05|C06|C07|C08) V="rel dbg" ;; *) V="rel dbg lite" ;; esac
for v in $V; do
  if ! out=$(bash sim/build.sh "$v" 2>&1); then
    printf '%s\n' "$out" | tail -40 >&2
    echo "check $PROP: the simulator ($v build) does not build against /repo" >&2
    [ "$v" = rel ] && exit 2
    # nothing is said about nodes of a build that does not exist; the others are still checked
    rm -f "sim/target/$v/release/psim"
  fi
done
[ "$PROP" = setup ] && exit 0
sim/target/rel/release/psim check "$PROP" --tier "$TIER" --seed "$SEED" --verif "$PWD" ${@:3}
rc=$?
[ -f known-findings.txt ] && grep -s "^KNOWN-FINDING: property=$PROP " known-findings.txt
exit $rc
