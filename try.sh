#!/bin/bash
# try.sh PATCH ID...: applies a patch to /repo, runs quick checks, undoes it.
patch="$1"; shift
cd "$(dirname "$0")"
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$patch" || exit 2
trap 'git -C /repo checkout -- .' EXIT
for id in "$@"; do
  t=$(date +%s)
  bash check.sh $id quick 2>&1 | cut -c1-400 | grep -v "^run "
  echo "   $id: $(( $(date +%s) - t )) s"
done
