#!/bin/bash
# tryseed.sh ID... : confirm a planted bug in a scratch copy: demo passes on the clean tree and fails with the patch; then run its check on the patched copy
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seedrepo; rm -rf /tmp/seedrepo; mkdir -p $S; (cd /repo && git archive HEAD) | tar x -C $S
for i in "$@"; do O=$V/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$O/meta.json'))['property'])")
(cd $S && git init -q 2>/dev/null; cd $S; if [ -z "$NODEMO" ]; then DEMO_TARGET=/tmp/seedtarget timeout 600 bash $O/demo.sh >/tmp/seed.clean 2>&1; a=$?; else a=-; fi
git apply $O/patch.diff || { echo "$i: patch does not apply"; exit; }
if [ -z "$NODEMO" ]; then DEMO_TARGET=/tmp/seedtarget timeout 600 bash $O/demo.sh >/tmp/seed.bug 2>&1; b=$?; else b=-; fi
VERIF_REPO=$S VERIF_WS=/tmp/seedws python3 $V/check.py $P > /tmp/seed.check 2>&1; c=$?
git apply -R $O/patch.diff
echo "$i [$P]: demo clean=$a patched=$b check=$c  $(grep -m1 -E 'violated|BUILD FAILED' /tmp/seed.check | cut -c1-200)  $(grep -m1 -E 'panicked|error' -A2 /tmp/seed.bug 2>/dev/null| tr '\n' ' ' | cut -c1-200)"); done
rm -rf /tmp/seedrepo
