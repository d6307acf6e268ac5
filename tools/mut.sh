#!/bin/bash
# mut.sh FILE SED-EXPR PROPERTY...: applies a sed expression to a file of /repo,
# runs the quick checks of the properties, and undoes it.
cd /repo || exit 2
git diff --quiet || { echo "/repo is dirty"; exit 2; }
f=$1 e=$2; shift 2
sed -i -E "$e" "$f"
git diff -U0 | grep '^[-+][^-+]'
for p in "$@"; do (cd /verif && ./check.sh "$p" quick 2>&1 | tail -3 | cut -c1-400); done
git checkout -- .
