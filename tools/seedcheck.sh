#!/bin/bash
# usage: seedcheck.sh ID...   verifies planted bugs in a scratch copy: applies, compiles, tests pass, demo passes before and fails after, check verdict
. /opt/vp/env.sh
for id in "$@"; do
s=/verif/seeded/$id; d=$(mktemp -d /tmp/seedXXXX); cp -a /repo $d/r; cp -r $s $d/demo; rm -f $d/demo/*.diff $d/demo/meta.json
P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd $d/r; timeout 300 bash $d/demo/demo.sh >$d/o1 2>&1; a=$?
git apply $s/patch.diff || echo "$id: DOES NOT APPLY"
timeout 300 bash $d/demo/demo.sh >$d/o2 2>&1; b=$?
python -m compileall -q micropolarray >/dev/null || echo "$id: NOCOMPILE"
t=$(python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -1)
cd /verif; v=$(VERIF_REPO=$d/r timeout 900 ./run $P 2>&1); r=$?
echo "$id $P demo $a/$b tests[$t] check=$r $(echo "$v" | grep -m1 '^VIOL') $(echo "$v" | grep -m1 '^  case' | cut -c1-140)"
[ $a = 0 ] || head -c 600 $d/o1; [ $b != 0 ] || head -c 600 $d/o2
rm -r "$d"
done
