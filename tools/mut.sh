#!/bin/bash
# mut.sh PATCHFILE Cxx [check options]: run a check against a scratch copy of /repo with a patch applied (development aid).
# mut.sh -s FILE 'python-expr on s' Cxx...: edit one file with a Python expression on its text s instead.
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/repo" && cp -a "${MUT_SRC:-/repo}/specula" "$d/repo/"
if [ "$1" = -s ]; then
  /usr/bin/python3 - "$d/repo/$2" "$3" <<'PY' || exit 9
import sys
s = open(sys.argv[1]).read()
t = eval(sys.argv[2])
assert t != s, 'edit changes nothing'
open(sys.argv[1], 'w').write(t)
PY
  shift 3
else
  (cd "$d/repo" && git init -q . && git apply "$1") || exit 9
  shift
fi
DST_REPO="$d/repo" DST_OUT="$d" /verif/check.sh "$@" 2>&1 | sed "s#$d/##" | cut -c1-600
