#!/bin/bash
# runs every check on a tree (default /repo), 4 at a time: all.sh [TREE] [JOBS]
T=${1:-/repo}; J=${2:-4}
cd "$(dirname "$0")/.."
seq -w 1 32 | xargs -P $J -I{} sh -c "timeout 900 python3 check.py C{} --repo $T > /tmp/all.C{}.txt 2>&1; rc=\$?; [ \$rc = 0 ] || { echo C{} rc \$rc; grep -a VIOLATION /tmp/all.C{}.txt | head -5 | cut -c1-400; }"
echo done; grep -h -a "^OK" /tmp/all.C*.txt | wc -l
