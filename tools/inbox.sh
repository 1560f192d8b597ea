#!/bin/bash
# usage: inbox.sh NAME CMD...   runs CMD with private copies of /repo and /verif (with seeded/) in a mount namespace of its own;
# what CMD leaves in the copy's seeded/ is copied back when KEEP=1. The copies are removed afterwards.
set -u
B=/tmp/box-$1; shift
mkdir -p "$B"
cp -a /repo "$B/repo"
rsync -a --exclude target --exclude .build --exclude .git --exclude replays /verif/ "$B/verif/" 2>/dev/null || cp -a /verif "$B/verif"
unshare -m bash -c 'mount --make-rprivate / && mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && shift 0 && exec "$@"' "$B" "$@"
rc=$?
[ "${KEEP:-}" = 1 ] && cp -a "$B/verif/seeded/." /verif/seeded/
rm -rf "$B"
exit $rc
