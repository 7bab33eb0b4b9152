#!/bin/bash
# usage: tools/try_bug.sh BUG [CHECK ...]: run checks (default: that of the bug's property) against a scratch copy with the bug
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
bug=$root/seeded/$1
prop=$(python3 -c "import json,sys;print(json.load(open('$bug/meta.json'))['property'])")
shift
[ $# -gt 0 ] || set -- "$prop"
git -C /repo apply "$bug/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  (cd "$root" && timeout 900 bash run.sh "$c" 2>&1 | tail -2 | cut -c1-300)
done
