#!/bin/bash
# tools/try.sh PATCH [IDs...]: apply a patch to /repo, run the checks, undo it.
# Without IDs all checks. Prints one line for each check that reports a violation.
patch=$(realpath "$1"); shift
cd /verif || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
git -C /repo apply $APPLY_FLAGS "$patch" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
ids=${*:-$(seq -f "C%02g" 1 31)}
for c in $ids; do
	o=$(./check "$c" quick 2>&1); r=$?
	case $r in
	0) [ $# -gt 0 ] && echo "$c quiet" ;;
	1) echo "$c VIOLATION: $(echo "$o" | grep -B2 '^VIOLATION' | head -1 | cut -c1-220)" ;;
	*) echo "$c ERROR $r: $(echo "$o" | tail -3)" ;;
	esac
done
