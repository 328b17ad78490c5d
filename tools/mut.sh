#!/bin/bash
# dev helper: mut.sh <ID> <sed-expr> <file>: applies a one-line change to /repo, runs the check, and undoes it
cd /repo && [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 2; }
sed -i "$2" "$3"; git diff --stat | tail -1
git diff | grep '^[+-]' | grep -v '^+++\|^---'
cd /verif && timeout 900 python3 check.py $1 | cut -c1-260 | head -6
git -C /repo checkout -q -- .
