#!/bin/bash
# try.sh ID [tests] : in a scratch copy, is the demo quiet without the bug and failing with it, do the tests pass, does the check catch it?
id=$1; m=/tmp/try_$id
rm -rf "$m"; git clone -q /repo "$m"
s=/tmp/seed_$id; rm -rf "$s"; cp -r "${D:-/verif}/seeded/$id" "$s"
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
(cd "$m" && bash "$s/demo.sh" > /tmp/try_$id.log 2>&1); a=$?
git -C "$m" apply "$s/patch.diff" || exit 9
(cd "$m" && bash "$s/demo.sh" >> /tmp/try_$id.log 2>&1); b=$?
t=-
if [ "$2" = tests ]; then
  sed -e "s#/repo#$m#g" -e "/pkill/d" -e "s#/opt/vp/work#/tmp/work_$id#g" /opt/vp/test.sh > /tmp/test_$id.sh
  bash /tmp/test_$id.sh /tmp/tests_$id.json > /tmp/tests_$id.log 2>&1
  t=$(tail -1 /tmp/tests_$id.log)
fi
c=-
if [ "$2" != nocheck ]; then
(cd ${D:-/verif} && VF_REPO="$m" timeout 900 python3 run.py $prop > /tmp/try_check_$id.log 2>&1); c=$?
fi
echo "$id $prop demo: $a/$b tests: $t check: $c $(grep -E '^  [0-9]+x' /tmp/try_check_$id.log | head -2 | cut -c1-150 | tr '\n' ';')"
rm -rf "$m" "$s" /tmp/work_$id /tmp/test_$id.sh
