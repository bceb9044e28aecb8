#!/bin/bash
# Builds the simulator in every variant the checks use.
cd "$(dirname "$0")" || exit 2
for v in rel dbg lite mid dflt lal; do
  bash sim/build.sh $v || exit 1
done
