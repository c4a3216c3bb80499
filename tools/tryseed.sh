#!/bin/bash
# usage: tryseed.sh ID [PROPERTY...]: applies a planted bug to a scratch copy of /repo and runs the checks
# (default: the one of the bug's property) against the copy.
id=$1; shift
root=$(cd "$(dirname "$0")/.." && pwd)
s=$(mktemp -d /tmp/try.XXXXXX) || exit 2
trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo" && cp -a "$root/mc" "$root/check" "$root/known_findings.json" "$s/" || exit 2
git -C "$s/repo" checkout -q -- . && git -C "$s/repo" apply "$root/seeded/$id/patch.diff" || exit 2
props=${*:-$(python3 -c "import json;print(json.load(open('$root/seeded/$id/meta.json'))['property'])")}
for p in $props; do
  out=$(REPO_DIR="$s/repo" "$s/check" "$p" 2>&1); rc=$?
  case $rc in
    1) echo "$id $p caught: $(grep -A3 '^  \[' <<<"$out" | head -2 | cut -c1-260 | tr '\n' ' ')";;
    0) echo "$id $p MISSED";;
    *) echo "$id $p rc=$rc $(tail -5 <<<"$out")";;
  esac
done
