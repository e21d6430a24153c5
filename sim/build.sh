#!/bin/bash
# Builds the simulator from the current tree of /repo into /verif/.build/egsim.
set -e
here=$(cd "$(dirname "$0")" && pwd)
root=$(dirname "$here")
repo=${EGSIM_REPO:-/repo}
out=${EGSIM_OUT:-$root/.build}
. "$root/env.sh"
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
goroot=$(go env GOROOT)
if [ ! -x "$out/instrument" ] || [ "$here/instrument/main.go" -nt "$out/instrument" ]; then
	(cd "$here/instrument" && go build -o "$out/instrument" .)
fi
python3 "$here/overlay/mkoverlay.py" "$goroot" "$out"
"$out/instrument" "$repo" "$out/repo" 4
mkdir -p "$out/harness"
cp -u "$here"/harness/*.go "$out/harness/"
for f in "$out"/harness/*.go; do [ -f "$here/harness/$(basename "$f")" ] || rm -f "$f"; done
mod=$(awk '$1=="module"{gsub(/"/,"",$2);print $2}' "$repo/go.mod")
{
	echo "module egsim"
	echo "go 1.24"
	echo "require $mod v0.0.0"
	echo "replace $mod => ../repo"
	# the requirements of the module under test
	awk '/^require \(/{on=1;next} on&&/^\)/{on=0;next} on{sub(/\/\/.*/,"");if(NF)print "require",$1,$2} /^require [^(]/{sub(/\/\/.*/,"");print} /^replace [^(]/{print}' "$repo/go.mod"
} > "$out/harness/go.mod.new"
cmp -s "$out/harness/go.mod.new" "$out/harness/go.mod.gen" || { cp "$out/harness/go.mod.new" "$out/harness/go.mod.gen"; cp "$out/harness/go.mod.new" "$out/harness/go.mod"; cp "$repo/go.sum" "$out/harness/go.sum"; }
cd "$out/harness"
# several copies of the program register the same protobuf message
go build -ldflags "-X google.golang.org/protobuf/reflect/protoregistry.conflictPolicy=ignore" -overlay "$out/std.json" -o "$out/egsim" .
