#!/bin/bash
# try.sh BUG...: run each bug's own check on a patched scratch copy of /repo, evidence and replays kept out of the way
cd "$(dirname "$0")/.."
for b in "$@"; do p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
t=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $t/repo; git -C $t/repo checkout -q -- .; git -C $t/repo apply $PWD/seeded/$b/patch.diff || echo APPLYFAIL
s=$(date +%s); VF_REPO=$t/repo VF_OUT=$t timeout 900 python3-vt engine/check.py $p > $t/log 2>&1; echo "$b $p exit $? $(( $(date +%s)-s ))s"; grep -h VIOLATION $t/log | head -3; rm -rf $t; done
