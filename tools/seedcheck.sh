#!/bin/bash
# seedcheck.sh [ID..]: runs the check of each planted bug's property against it.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bin=/tmp/seedcheck.bin
(cd "$here/analyzer" && GOFLAGS=-mod=mod go build -o $bin .) || exit 1
ids="$*"; [ -z "$ids" ] && ids="$(ls "$here/seeded")"
one() {
  id=$1; here=$2
  w=$(mktemp -d /tmp/sc.XXXXXX); v=$(mktemp -d /tmp/sv.XXXXXX)
  cp -a /repo/. "$w/"; cp "$here/known_findings.txt" "$v/" 2>/dev/null
  if ! git -C "$w" apply "$here/seeded/$id/patch.diff"; then echo "$id patch does not apply"; rm -rf "$w" "$v"; exit; fi
  prop=$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  start=$(date +%s)
  out=$(GOFLAGS= /tmp/seedcheck.bin -prop $prop -repo "$w" -verif "$v" 2>&1); rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - start ))s $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-160)"
  rm -rf "$w" "$v"
}
export -f one
for id in $ids; do echo $id; done | xargs -P ${P:-4} -I{} bash -c "one {} $here"
