#!/bin/bash
# check.sh PROPERTY: decides one property of the code in /repo.
# Builds the analyser (from the committed sources) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
fail() {
  mkdir -p "$here/replay"
  echo "$2" > "$here/replay/$prop.txt"
  echo "$2"
  echo "VIOLATION property=$prop replay=$here/replay/$prop.txt"
  exit 1
}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod" GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/bin"
bin="$here/bin/vtdcheck.$$"
if ! out="$(cd "$here/analyzer" && go build -o "$bin" . 2>&1)"; then
  fail build "the analyser does not build: $out"
fi
unset GOFLAGS
"$bin" -prop "$prop" -repo /repo -verif "$here"
rc=$?
rm -f "$bin"
case $rc in
  0|1) exit $rc ;;
  *) fail run "the analyser ended with status $rc" ;;
esac
