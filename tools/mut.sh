#!/bin/bash
# mut.sh PROP 'sed-expr' file [more sed/file pairs]: runs check PROP against a scratch copy with an edit applied.
P=$1; shift
D=$(mktemp -d /tmp/mutXXXXXX); mkdir $D/repo; cp -a /repo/macoro $D/repo/
while [ $# -ge 2 ]; do
  cp $D/repo/macoro/$2 $D/before; perl -0pi -e "$1" $D/repo/macoro/$2
  cmp -s $D/before $D/repo/macoro/$2 && echo "EDIT HAD NO EFFECT: $1 $2"
  shift 2
done
cd /verif; VERIF_REPO=$D/repo timeout 880 python3 check.py $P 2>&1 | cut -c1-400 | tail -${LINES_OUT:-6}; 
rm -rf "$D"
