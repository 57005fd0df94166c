#!/bin/bash
# seedtest.sh [-n] ID : confirm a planted bug in a scratch copy bind-mounted over /repo:
# applies, builds, passes the stable tests, demo fails with it and passes without it.
# -n: skip the stable tests. Run with WT=/tmp/wtN to use another copy.
WT=${WT:-/tmp/wt}
SKIP=0; [ "$1" = -n ] && { SKIP=1; shift; }
[ -d $WT ] || cp -a /repo $WT
exec unshare -Urm bash "$(dirname "$0")/seedtest_inner.sh" $WT $1 $SKIP
