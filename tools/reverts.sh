#!/bin/bash
# for every repaired defect: does its check report it again when the fix is reverted?  usage: reverts.sh [PROPERTY...]
V=$(dirname "$(dirname "$(readlink -f "$0")")")
W=/tmp/wt.reverts
git -C /repo worktree prune; git -C /repo worktree add -qf --detach $W HEAD || exit 1
grep '^fixed:' $V/known_findings.txt | while read _ p h rest; do
  p=${p#property=}
  [ $# -gt 0 ] && [[ " $* " != *" $p "* ]] && continue
  git -C $W reset -q --hard
  if ! git -C $W revert -n $h >/dev/null 2>&1; then git -C $W revert --abort 2>/dev/null; git -C $W reset -q --hard; echo "CONFLICT $p $h $rest"; continue; fi
  out=$(CCNPY_REPO=$W python3 $V/check.py $p 2>&1)
  if echo "$out" | grep -q "^VIOLATION property=$p"; then echo "caught   $p $h $rest"; else echo "MISSED   $p $h $rest"; fi
done
git -C /repo worktree remove --force $W
