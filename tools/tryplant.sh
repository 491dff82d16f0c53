#!/bin/bash
# tryplant.sh ID [no-check]: in a scratch copy: the demo on the clean and the patched tree, and the property's check
id=$1; d=/verif/seeded/$id; R=/tmp/try.$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git clone -q /repo $R || exit 9
cd $R
bash $d/demo.sh >/tmp/demo.clean 2>&1; a=$?
git apply $d/patch.diff || exit 9
bash $d/demo.sh >/tmp/demo.bad 2>&1; b=$?
if [ "$2" != no-check ]; then cd /verif; VP_REPO=$R timeout 900 bin/check ${3:-$prop} >/tmp/check.$id 2>&1; k=$?; fi
rm -rf /tmp/try.$id
echo "$id $prop demo clean=$a bad=$b check=$k $(grep -c '^VIOLATION' /tmp/check.$id 2>/dev/null)"
