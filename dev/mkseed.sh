#!/bin/bash
# mkseed.sh ID: the working-tree changes of /tmp/w/repo become /verif/seeded/ID/patch.diff (then undone there)
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/w/repo diff > $D/patch.diff
git -C /tmp/w/repo checkout -q -- .
[ -f $D/demo.sh ] || cp /verif/dev/demo.sh $D/demo.sh; chmod +x $D/demo.sh
git -C /repo apply --check $D/patch.diff && wc -l $D/patch.diff
