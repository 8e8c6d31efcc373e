#!/bin/bash
# tools/seedtests.sh ID...: the stable tests with each planted bug applied to /repo (undone afterwards)
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.b.log 2>&1; r=$?
  bash /opt/vp/test.sh /tmp/seed.o.json >/tmp/seed.t.log 2>&1; echo "$id: build=$r $(tail -1 /tmp/seed.t.log)"
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/seed.b.log 2>&1
