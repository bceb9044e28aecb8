#!/bin/bash
# trybug.sh <id>...: confirms a planted change in a scratch copy of /repo: it applies, builds, passes
# the stable tests, and its demonstration passes without it and fails with it.
# (Works in a copy; the build scripts are pointed at the copy.)
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  s=$(mktemp -d /tmp/bug.XXXX); cp -a /repo "$s/repo"; cp -a "$V/seeded/$id" "$s/d"
  sed 's|/repo|'"$s"'/repo|g' /opt/vp/env.sh > "$s/env.sh"
  ( cd "$s/repo" && bash "$s/d/demo.sh" > "$s/clean.log" 2>&1 ); c=$?
  git -C "$s/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$s"; continue; }
  ( . "$s/env.sh"; cargo test "${OPTS[@]}" --all-targets --no-run ) > "$s/build.log" 2>&1; b=$?
  ( . "$s/env.sh"; cargo test "${OPTS[@]}" --no-fail-fast -- --test-threads 8 ) > "$s/test.log" 2>&1
  ok=$(grep -hE '^test .* \.\.\. ok' "$s/test.log" | awk '{print $2}' | sort -u | wc -l); bad=$(grep -cE '^test .* FAILED' "$s/test.log")
  ( cd "$s/repo" && bash "$s/d/demo.sh" > "$s/patched.log" 2>&1 ); p=$?
  echo "$id: build=$b tests ok=$ok failed=$bad demo clean=$c patched=$p :: $(tail -1 "$s/patched.log" | cut -c1-160)"
  [ $c != 0 ] && tail -5 "$s/clean.log"
  [ $b != 0 ] && grep -A8 '^error' "$s/build.log" | head -40
  rm -rf "$s"
done
