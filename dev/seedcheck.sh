#!/bin/bash
# seedcheck.sh [-a] [ids...]: own property's check (or all with -a) per seed
cd /verif
ALL=0; [ "$1" = "-a" ] && { ALL=1; shift; }
one() {
  id=$1; all=$2
  W=/tmp/sc/$id; rm -rf "$W"; mkdir -p "$W/repo" "$W/v"
  cp -a /repo/src "$W/repo/src"
  (cd "$W/repo" && git init -q . 2>/dev/null; patch -s -p1 < /verif/seeded/$id/patch.diff)
  cp -a /verif/sa /verif/check.py /verif/reference /verif/known_findings.txt "$W/v/"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  L=$p; [ $all = 1 ] && L=$(python3 -c "print(' '.join('C%02d'%i for i in range(1,33)))")
  r=""
  for c in $L; do (cd "$W/v"; timeout 600 python3 check.py $c --repo "$W/repo" > out.$c 2>&1; echo $? > rc.$c); [ "$(cat $W/v/rc.$c)" = 0 ] || r="$r $c:$(cat $W/v/rc.$c)"; done
  echo "$id ($p) ->$r"
  [ $all = 1 ] || grep -h "^  /\|^  src\|^  [^ ]*:[0-9]*:" "$W/v/out.$p" | cut -c1-220 | head -3
  rm -rf "$W"
}
export -f one
ids=${*:-$(ls seeded)}
printf '%s\n' $ids | xargs -P 7 -I{} bash -c "one {} $ALL"
