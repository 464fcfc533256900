#!/bin/bash
# quiet.sh [KIND...]: every check on every rewritten copy of /repo; prints the checks which are not quiet
here=$(cd "$(dirname "$0")/.." && pwd)
kinds=${*:-plain hoist_return flip_if rename unelse split_impl commute noop unaug demorgan temps}
for k in $kinds; do
  d=$(mktemp -d /tmp/refac.XXXXXX)
  python3 "$here/tools/refactor.py" "$k" "$d" || echo "$k: rewriting failed"
  for c in ${CHECKS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])")}; do
    FSA_REPO=$d python3 "$here/check.py" "$c" > /tmp/quiet.out 2>&1 || { echo "$k $c"; grep -v "^VIOLATION" /tmp/quiet.out | head -${LINES_:-4} | cut -c1-260; }
  done
  rm -rf "$d"
  echo "$k done"
done
