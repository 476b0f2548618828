#!/bin/bash
# Takes back each repaired defect of known_findings.txt in a scratch copy and runs the check of its property there:
# every one has to be reported again.  usage: tools/sensitivity.sh [scratch directory]
V=$(cd "$(dirname "$0")/.." && pwd); D=${1:-/tmp/sensitivity}; rc=0
mkdir -p "$D" || exit 2
[ -d "$D/r" ] || git clone -q /repo "$D/r"
[ -d "$D/v" ] || { mkdir "$D/v"; (cd "$V" && tar cf - --exclude=.git --exclude=seeded --exclude=build --exclude=replays .) | tar xf - -C "$D/v"; }
git -C "$D/r" fetch -q && git -C "$D/r" reset -q --hard origin/HEAD
grep '^fixed:' "$V/known_findings.txt" | while read -r _ p c rest; do
	p=${p#property=}
	if ! git -C "$D/r" -c user.name=x -c user.email=x revert -n "$c" >/dev/null 2>&1; then
		echo "$p $c cannot be taken back alone: $rest"
	else
		o=$(cd "$D/v" && REPO=$D/r timeout 400 bin/check "$p" --shrink 3 2>&1)
		case "$o" in *VIOLATION*) echo "$p $c reported: $(echo "$o" | grep -a -m1 -o 'violated (.*' | cut -c1-110)" ;; *) echo "$p $c MISSED: $rest"; rc=1 ;; esac
	fi
	git -C "$D/r" reset -q --hard
done
echo "scratch directory: $D"
exit $rc
