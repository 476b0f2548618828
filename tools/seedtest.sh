#!/bin/bash
# tools/seedtest.sh ID...: does what counts for a planted bug, against /repo itself: it builds, the tests pass, the demo tells, the check tells
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id; do
	s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); t=$(mktemp -d)
	cp -a $s/. $t; /usr/bin/env rm -f $t/patch.diff $t/meta.json
	bash /opt/vp/build.sh >/dev/null 2>&1; (bash $t/demo.sh) >$t/d0 2>&1; d0=$?
	git apply $s/patch.diff || { echo "$id does not apply"; continue; }
	bash /opt/vp/build.sh >$t/b 2>&1 || echo "$id does not build"
	[ -n "$NOTESTS" ] || bash /opt/vp/test.sh $t/r.json >/dev/null 2>&1
	n=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));p=json.load(open('$t/r.json'))['passed'];f=b.get('passed') or b.get('stable') or b;print([x for x in f if x not in p])" 2>&1)
	(bash $t/demo.sh) >$t/d1 2>&1; d1=$?
	a=$SECONDS; (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $prop) >$t/c 2>&1; c=$?; v=$(grep -a -c "^VIOLATION property=$prop " $t/c)
	echo "$id $prop missing-tests=$n demo $d0->$d1 ($(tail -n1 $t/d0); $(tail -n1 $t/d1)) check exit=$c violations=$v $((SECONDS-a))s: $(grep -a "^property" $t/c | head -1)"
	git checkout -q -- .; find $t -delete
done
bash /opt/vp/build.sh >/dev/null 2>&1
