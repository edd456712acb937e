#!/bin/bash
# trydemo.sh ID: demo on the unchanged and on the changed scratch copy
D=/verif/seeded/$1
cd /tmp/w/repo && git checkout -q -- . && bash $D/demo.sh; echo "unchanged: $?"
git apply $D/patch.diff && bash $D/demo.sh; echo "changed: $?"
git checkout -q -- .
