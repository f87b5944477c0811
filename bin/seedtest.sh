#!/bin/bash
# Runs the check of each planted bug (arguments: prefixes of their ids, none: all)
# on a scratch copy of /repo and /verif with the bug applied.
# Prints caught or MISSED.  J=n: n at a time.
SRC=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; d=$SRC/seeded/$id; w=$(mktemp -d /tmp/seedtest.XXXXXX)
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  p=${CHECK:-$p}
  git clone -q /repo "$w/repo"; mkdir "$w/verif"
  cp -r "$SRC/bin" "$SRC/spec" "$SRC/harness" "$SRC/KNOWN_FINDINGS" "$w/verif/"
  sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
  git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; return; }
  s=$(date +%s)
  out=$(cd "$w/verif" && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 bin/check.py "$p" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then r=caught; else r="MISSED (exit $rc)"; fi
  [ "$VERBOSE" ] && echo "$out" | tail -c 1500
  echo "$id: $p $r $(( $(date +%s) - s )) s $(grep -o '^event [0-9]*' <<<"$out")"
  rm -rf "$w"
}
export -f one; export SRC
cd "$SRC/seeded" || exit 2
for d in */; do
  id=${d%/}
  [ $# -eq 0 ] && echo "$id"
  for a in "$@"; do case $id in "$a"*) echo "$id";; esac; done
done | xargs -P "${J:-1}" -I{} bash -c 'one {}'
