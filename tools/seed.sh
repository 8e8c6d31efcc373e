#!/bin/bash
# tools/seed.sh ID [check]: confirms a planted bug in a scratch copy: applies, builds, passes the stable
# tests, demo passes without and fails with it; then runs the check of its property (or the given one).
set -u
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$here/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX); trap 'chmod -R u+w "$s"; find "$s" -delete' EXIT
cp -a /repo/include "$s/include"
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
if [ -z "${SKIPDEMO:-}" ]; then
  cp -a /repo "$s/repo"; (cd "$s/repo" && git -C "$s/repo" checkout -q -- . && bash "$d/demo.sh" >"$s/d0.log" 2>&1); a=$?
  git -C "$s/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
  (cd "$s/repo" && bash "$d/demo.sh" >"$s/d1.log" 2>&1); b=$?
  echo "$id: demo unchanged=$a patched=$b  [$(tail -1 "$s/d1.log" | cut -c1-150)]"
fi
(cd "$s" && git init -q . && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; exit 1; }
out=$(cd "$here" && GTL_REPO=$s timeout 900 python3 run.py "$prop" quick 2>&1); rc=$?
echo "$id: $prop exit=$rc  $(echo "$out" | grep -aE "VIOLATION|^C[0-9]+:|ERROR" | head -2 | tr '\n' ' ' | cut -c1-260)"
