#!/bin/bash
# newseed.sh ID: takes the uncommitted change of the scratch copy /tmp/wt/s as seeded/ID/patch.diff and confirms it:
# applies, builds, passes the tests, and the demo fails with it and passes without
set -e
ID=$1; S=/verif/seeded/$ID; T=${T:-/tmp/wt/s}
mkdir -p $S
git -C $T diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo apply --check $S/patch.diff
cp -r /verif/tools/seedlib/lib.sh /verif/tools/seedlib/demo.h /verif/tools/seedlib/shim $S/
D=/tmp/demo.$ID; rm -rf /tmp/demo.$ID; mkdir $D; cp -r $S/. $D; rm -f $D/patch.diff $D/meta.json
(cd $T; time bash $D/demo.sh) && { echo "$ID: demo does NOT fail with the change"; exit 1; } || echo "$ID: demo rc with change nonzero (ok)"
(cd /repo; time bash $D/demo.sh) || { echo "$ID: demo fails on the unchanged tree"; exit 1; }
rm -rf /tmp/demo.$ID
echo "$ID ok"
