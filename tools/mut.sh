#!/bin/bash
# mut.sh PATCH|- CHECK...   runs checks against a scratch copy of /repo's sources with the patch applied (- = none / already edited)
set -e
exec 9>/tmp/mut.lock; flock 9
S=/tmp/mut; mkdir -p $S
if [ ! -d $S/build ]; then cp -a /verif/.build $S/build; rm -rf /tmp/mut/build/ws; fi
rsync -a --delete --exclude target --exclude .git --exclude testdata /repo/ $S/repo/ 2>/dev/null || { mkdir -p $S/repo; rm -rf /tmp/mut/repo/src; cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock /repo/README.md $S/repo/; }
P=$1; shift
if [ "$P" != - ]; then (cd $S/repo && patch -s -p1 < "$P"); fi
if [ -n "$EDIT" ]; then (cd $S/repo && eval "$EDIT"); fi
export VERIF_REPO=$S/repo VERIF_BUILD=$S/build VERIF_EVID=$S/evidence
for c in "$@"; do python3 /verif/check.py $c || true; done
