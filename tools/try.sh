#!/bin/bash
# try.sh PATCH CHECK...: run checks on a copy of /repo with a patch applied
p=$(readlink -f "$1"); shift
w=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo" && git -C "$w/repo" apply "$p" || exit 9
for c in "$@"; do TMPDIR=$w VERIF_REPO=$w/repo VERIF_TIER=${VERIF_TIER:-quick} python3 /verif/harness/check.py $c 2>&1 | tail -6; done
