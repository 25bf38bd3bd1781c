#!/bin/bash
# Developer tool: run the check of each planted bug's property against a copy of /repo with the bug.
#   bash tools/try_bug.sh ID...
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$HERE/seeded/$id/meta.json")
  W=$(mktemp -d /tmp/bugtry.XXXXXX)
  cp -a /repo "$W/repo"
  git -C "$W/repo" apply "$HERE/seeded/$id/patch.diff" || { rm -rf "$W"; continue; }
  s=$(date +%s)
  out=$(cd "$HERE" && VERIF_REPO=$W/repo bash check.sh "$p" quick 2>&1); rc=$?
  rm -rf "$W"
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "$id: $p CAUGHT ($(( $(date +%s) - s )) s) $(grep -A1 VIOLATION <<<"$out" | sed -n 2p)"
  else echo "$id: $p MISSED rc=$rc ($(( $(date +%s) - s )) s)"; tail -3 <<<"$out"; fi
done
