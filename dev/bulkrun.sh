#!/bin/bash
# bulkrun.sh DIR [-r|--rules-only]: every check on a refactored tree
for c in $(seq -f 'C%02g' 1 32); do echo $c; done | xargs -P 5 -I{} sh -c "python3 check.py {} --repo $1 $2 > $1/out.{} 2>&1; echo {} \$?" | sort | grep -v " 0$"
