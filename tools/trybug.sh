#!/bin/bash
# tools/trybug.sh SEED... : in scratch copies of /repo and of /verif (so neither is touched),
# applies each planted bug and runs its property's quick check.  TRYBUG_CHECK=Cnn runs another check.
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/verif"
(cd "$here" && cp -a drivers lib specs known_findings.json run_check.py "$w/verif/")
for s in "$@"; do
  p=${TRYBUG_CHECK:-$(python3 -c "import json;print(json.load(open('$here/seeded/$s/meta.json'))['property'])")}
  git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply "$here/seeded/$s/patch.diff" || { echo "$s DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  out=$(SOYNLP_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 "$w/verif/run_check.py" $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION <<<"$out" | sed 's/replay=.*//')"
  [ $rc = 1 ] || tail -5 <<<"$out"
done
