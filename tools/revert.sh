#!/bin/sh
# tools/revert.sh COMMIT CHECK...: run checks against a scratch copy of /repo with one commit undone
c=$1; shift
d=/tmp/rv.$$
rm -rf $d; git -C /repo worktree add -q --detach $d HEAD || exit 2
( cd $d && git revert -n $c >/dev/null 2>&1 ) || echo "CONFLICT reverting $c"
for k in "$@"; do SCAKS_REPO=$d ./check $k | grep -a "VIOL\|cases," ; done
git -C /repo worktree remove --force $d
