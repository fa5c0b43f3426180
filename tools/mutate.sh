#!/bin/bash
# usage: mut.sh CHECK file 'sed-expr'   (mutates a scratch copy)
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/micropolarray $d/
sed -i "$3" $d/micropolarray/$2
diff -q /repo/micropolarray/$2 $d/micropolarray/$2 >/dev/null && echo "NO CHANGE"
cd /verif; VERIF_REPO=$d ./run $1; echo "exit $?"
rm -r "$d"
