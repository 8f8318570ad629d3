#!/bin/bash
# revert.sh <commit> <check>: run a check on a scratch copy of /repo with one fix commit reverted (must report a violation)
d=$(mktemp -d /tmp/rvXXXX); rmdir "$d"
git -C /repo worktree add -q --detach "$d" HEAD
git -C "$d" revert -n "$1" >/dev/null || { echo "revert conflict"; git -C /repo worktree remove --force "$d"; exit 2; }
VERIF_REPO="$d" bash "$(dirname "$0")/../run.sh" "$2" quick 2>&1 | head -6
git -C /repo worktree remove --force "$d"
