#!/bin/bash
# tools/try.sh PATCH CHECK... : run checks against a patched copy of /repo
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/msvtry.XXXXXX)
trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar x -C "$d"
cp /repo/metsim/_version.py "$d/metsim/" 2>/dev/null
(cd "$d" && git init -q . && git apply "$p") || exit 3
cd "$(dirname "$(realpath "$0")")/.."
cp -r evidence "$d/ev" 2>/dev/null
for c in "$@"; do
  VERIF_REPO=$d PYTHONPATH=$d ./check $c | tail -${LINES_:-4}
done
cp "$d"/ev/* evidence/ 2>/dev/null
