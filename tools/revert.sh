#!/bin/bash
# revert.sh [COMMIT...]: undo each repair (default: all in KNOWN_FINDINGS) in a
# scratch copy of /repo and run the check of its property, which must report it.
here=$(cd "$(dirname "$0")/.." && pwd)
sed -n 's/^fixed: property=\(\S*\) \(\S*\) .*/\1 \2/p' "$here/KNOWN_FINDINGS" | while read -r prop commit; do
  if [ $# -gt 0 ] && [[ " $* " != *" $commit "* ]]; then continue; fi
  d=$(mktemp -d /tmp/gpegrev.XXXXXX)
  cp -a /repo "$d/repo"
  ln -s "$here/KNOWN_FINDINGS" "$d/KNOWN_FINDINGS"
  if ! (cd "$d/repo" && git -c user.name=x -c user.email=x@x revert -n -X theirs "$commit") > "$d/log" 2>&1; then
    echo "$commit $prop CONFLICT"
  else
    GPEG_REPO=$d/repo VERIF_OUT=$d bash "$here/check.sh" "$prop" < /dev/null > "$d/out" 2>&1
    echo "$commit $prop exit $? $(grep -m1 VIOLATION "$d/out" || tail -1 "$d/out")"
  fi
  rm -rf "$d"
done
