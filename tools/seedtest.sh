#!/bin/bash
# seedtest.sh ID [nocheck]: in a copy of /repo: demo passes, with the patch it fails, and the check reports it
set -u
V=$(cd "$(dirname "$0")/.." && pwd); id=$1
d=/tmp/seedtest-$$; cp -a /repo $d; s=/tmp/seedtest-$$-demo; cp -a "$V/seeded/$id" $s; rm -f $s/*.diff $s/meta.json
(cd $d && timeout 300 bash $s/demo.sh >$d/.demo.log 2>&1); a=$?
git -C $d apply "$V/seeded/$id/patch.diff" || echo "patch does not apply"
(cd $d && timeout 300 bash $s/demo.sh >$d/.demo2.log 2>&1); b=$?
echo "$id: demo clean=$a patched=$b"; [ $a != 0 ] && tail -5 $d/.demo.log; [ $b = 0 ] && tail -5 $d/.demo2.log; tail -2 $d/.demo2.log
p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
[ "${2:-}" = nocheck ] || NDT_REPO=$d timeout 900 "$V/bin/check" $p 2>&1 | cut -c1-200 | tail -2
rm -rf $d $s
