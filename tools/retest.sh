#!/bin/bash
# retest.sh BUG...: run the quick check of each seeded bug's property against a scratch copy of /repo with that bug
for b in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])"); R=$(mktemp -d /tmp/rt-XXXX); cp -a /repo/. $R/; if git -C $R apply /verif/seeded/$b/patch.diff; then SUSA_REPO=$R timeout 900 python3 /verif/tools/check.py $p > $R/.out 2>&1; e=$?; echo "$b exit $e $([ $e = 1 ] && echo CAUGHT || echo MISSED)"; grep -A1 VIOLATION $R/.out | head -2 | cut -c1-260; grep 'quick:' $R/.out; else echo "$b does not apply"; fi; rm -rf "$R"; done
