#!/bin/bash
# Developer tool: confirm planted bugs in a scratch copy of /repo.
#   bash tools/confirm_bug.sh [--no-tests] ID...
# For each: the patch applies, the stable tests pass with it, the demo passes
# without it and fails with it.
NT=0; [ "$1" = "--no-tests" ] && { NT=1; shift; }
HERE=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  W=$(mktemp -d /tmp/bugcopy.XXXXXX)
  cp -a /repo "$W/repo"
  D=$HERE/seeded/$id
  cd "$W/repo" || exit 1
  export PYTHONPATH=$W/repo
  cp -r "$D" "$W/demo"
  bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; a=$?
  git apply "$D/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1; b=$?
  t=skipped
  if [ $NT = 0 ]; then
    sed -e "s#cd /repo#cd $W/repo#" -e "s#/opt/vp/reports#$W/reports#" /opt/vp/test.sh > "$W/test.sh"
    bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
    t=$(python3 - "$W/out.json" <<'P'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
st = b["stable"]; ps = o.get("passed", o)
ps = set(ps if isinstance(ps, list) else [k for k, v in ps.items() if v in (True, "passed", "pass")])
lost = [x for x in st if x not in ps]
print("tests lost %d %s" % (len(lost), lost[:4]))
P
)
  fi
  echo "$id: demo clean=$a bug=$b; $t"
  [ $a != 0 ] && tail -5 "$W/clean.log"
  [ $b = 0 ] && tail -5 "$W/bug.log"
  cd /; rm -rf "$W"
done
