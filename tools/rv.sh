#!/bin/bash
# rv.sh PROP COMMIT: runs check PROP against a scratch copy with a fix reverted
D=$(mktemp -d /tmp/mutXXXXXX); mkdir $D/repo; cp -a /repo/macoro $D/repo/
git -C /repo show $2 -- macoro > $D/p; (cd $D/repo && patch -s -R -p1 < $D/p) || { echo "NO REVERT $2"; rm -rf "$D"; exit; }
cd "$(dirname "$0")/.."; echo "$1 $2: $(VERIF_REPO=$D/repo timeout 880 python3 check.py $1 2>&1 | grep -E '^VIOL|^OK|^ERR' | cut -c1-150 | head -1)"
rm -rf "$D"
