#!/bin/bash
# usage: check.sh ID [quick|thorough]   decides one property on the current tree of /repo
#        check.sh replay FILE           runs a recorded violation again
here=$(cd "$(dirname "$0")" && pwd)
root=$(dirname "$here")
export EGSIM_ROOT=${EGSIM_ROOT:-$root}
out=${EGSIM_OUT:-$root/.build}
log=$(mktemp)
if ! "$here/build.sh" >"$log" 2>&1; then
	cat "$log" >&2
	rm -f "$log"
	echo "the simulator does not build" >&2
	exit 2
fi
rm -f "$log"
if [ "$1" = replay ]; then
	exec "$out/egsim" replay "$2"
fi
exec "$out/egsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
