#!/bin/bash
# seedrun.sh [--notest] <id>...: for each planted bug, in a private mount namespace with copies of /repo and of the committed /verif:
# the stable tests must pass with the bug, then the check of its property must report it. One line per bug in /tmp/seedrun.log.
rm -f /tmp/sr.out; T=1; [ "$1" = --notest ] && { T=0; shift; }
R=/tmp/sr.repo V=/tmp/sr.verif
rm -rf /tmp/sr.repo /tmp/sr.verif
cp -a /repo $R && git -C $R checkout -q -- . ; git clone -q /verif $V
for id in "$@"; do
  cp /verif/seeded/$id/patch.diff /tmp/sr.diff
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c "mount --bind $R /repo; mount --bind $V /verif; cd /verif
    git -C /repo apply /tmp/sr.diff || exit 9
    st=-; [ $T = 1 ] && st=\$(bash tools/stable.sh 2>&1 | tail -1)
    VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/sr.out 2>&1; rc=\$?
    git -C /repo checkout -q -- .
    echo \"$id $p rc=\$rc tests=[\$st] \$(grep -m1 VIOLATION /tmp/sr.out) \$(grep -m1 -o 'NOTE.*' /tmp/sr.out | cut -c1-150)\" >> /tmp/seedrun.log"
done
rm -rf /tmp/sr.repo /tmp/sr.verif
