#!/bin/bash
# One seed is one execution: the same seeds, in fresh processes and with 1, 3 and 8 workers, give the same run hashes.
# usage: tools/determinism.sh [runs [property...]]     exits 1 when any digest differs
cd "$(dirname "$0")/.." || exit 2
n=${1:-300}; shift
[ $# -gt 0 ] || set -- $(ls props/C*.cpp | sed 's,props/\(.*\)\.cpp,\1,')
rc=0
for c in "$@"; do
	d=""
	for w in 1 3 8 8; do
		x=$(timeout 600 bin/check "$c" --runs "$n" --wall 500 --workers $w --seed 77 --shrink 0 2>/dev/null | grep -a -o 'digest [0-9a-f]*\|^VIOLATION')
		d="$d ${x#digest }"
	done
	a=($d)
	if [ ${#a[@]} = 4 ] && [ "${a[0]}" = "${a[1]}" ] && [ "${a[0]}" = "${a[2]}" ] && [ "${a[0]}" = "${a[3]}" ]; then echo "$c same $n runs, 1/3/8/8 workers: ${a[0]}"; else echo "$c DIFFERS:$d"; rc=1; fi
done
exit $rc
