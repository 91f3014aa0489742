#!/bin/bash
# try.sh ID PROP... : do the checks catch it?
ID=$1; shift
cd /repo && git apply /verif/seeded/$ID/patch.diff || exit 1
for p in "$@"; do (cd /verif; ./run.py $p quick | cut -c1-300); done
git -C /repo checkout -- .
