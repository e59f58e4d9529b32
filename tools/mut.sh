#!/bin/bash
# usage: tools/mut.sh PATCH|- ID...   run checks against a scratch copy of /repo's working tree with PATCH applied (-R:PATCH reverses it)
p="$1"; shift; case "$p" in -|-R:*|/*) ;; *) p="$PWD/$p";; esac
mkdir -p /tmp/mr && rsync -a --delete --exclude target --exclude .git "${VP_SRC:-/repo}"/ /tmp/mr/
rev=; case "$p" in -R:*) rev=-R; p="${p#-R:}";; esac
if [ "$p" != "-" ]; then (cd /tmp/mr && patch -p1 $rev -s --no-backup-if-mismatch < "$p") || exit 9; fi
cd "$(dirname "$0")/.." && mkdir -p /tmp/mrev && VP_EVIDENCE=/tmp/mrev VP_REPO=/tmp/mr VP_CACHE=/tmp/mrcache python3 -m vpa.check "$@"
