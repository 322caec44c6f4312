#!/bin/bash
# try.sh PATCH|revert:COMMIT CHECK...: run checks against a changed copy of /repo
p=$1; shift
d=$(mktemp -d /tmp/try-XXXXXX)
cp -a /repo/. "$d"
if [[ $p == revert:* ]]; then
  git -C "$d" -c user.name=x -c user.email=x revert -n "${p#revert:}" || { rm -rf "$d"; exit 3; }
else
  git -C "$d" apply "$p" || { rm -rf "$d"; exit 3; }
fi
for c in "$@"; do
  VERIF_REPO=$d "$(dirname "$0")"/../check.py $c > /tmp/try.$$.out 2>&1; rc=$?
  echo "== $p $c rc=$rc: $(grep -m1 '^violation of' /tmp/try.$$.out | cut -c1-260)"
  [ $rc = 2 ] && tail -5 /tmp/try.$$.out
done
rm -rf "$d" /tmp/try.$$.out
