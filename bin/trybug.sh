#!/bin/bash
# trybug.sh PATCH CHECK... : run checks against a scratch copy of /repo with PATCH applied
set -e
P=$(readlink -f "$1"); shift
D=/tmp/trybug.$$; mkdir -p $D
trap 'rm -rf "$D"' EXIT
git -C /repo worktree prune
mkdir $D/repo; git -C /repo archive HEAD | tar -x -C $D/repo
(cd $D/repo && git apply --unsafe-paths "$P" 2>/dev/null || patch -s -p1 < "$P")
for c in "$@"; do
    mkdir -p $D/verif; rsync -a --exclude build --exclude evidence --exclude .git --exclude seeded /verif/ $D/verif/ 2>/dev/null || cp -a /verif/{run.py,lib,checks,mcrt,bin,known-findings.txt} $D/verif/ 2>/dev/null || true
    VERIF_REPO=$D/repo VERIF_BUILD=$D/build timeout 900 $D/verif/run.py $c ${TIER:-quick} 2>&1 | tail -${LINES_OUT:-6} || true
done
