#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]. Builds the analyser from the committed sources and decides the property.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$PWD"
fail() {
	mkdir -p evidence
	printf '%s\n' "$1" > "evidence/$id.violations.txt"
	echo "$1"
	echo "VIOLATION property=$id replay=$PWD/evidence/$id.violations.txt"
	exit 1
}
id=$1
bash build.sh > /tmp/verif-build.$$ 2>&1 || { cat /tmp/verif-build.$$; rm -f "/tmp/verif-build.$$"; fail "the analyser could not be built"; }
rm -f "/tmp/verif-build.$$"
./bin/verif check "$id" "${2:-quick}"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || fail "the analyser ended with status $rc"
exit $rc
