#!/bin/bash
# runr.sh mode n pref seeds...
m=$1; n=$2; p=$3; shift 3
for s in $*; do ulimit -v 5500000; timeout 850 python3 /verif/dev/harness.py $m $n $s $p "$ONLY" 3 > /tmp/$m$s.txt 2>&1 & done; wait
for s in $*; do grep -hE "^total|^CRASH" /tmp/$m$s.txt; done
for s in $*; do grep -hE "^[rm]_" /tmp/$m$s.txt; done | awk '{split($2,a,"/"); b[$1]+=a[1]; t[$1]+=a[2]} END{for(k in b) printf "%s %d/%d; ",k,b[k],t[k]; print ""}'
for s in $*; do grep -hE "^=====" /tmp/$m$s.txt; done
