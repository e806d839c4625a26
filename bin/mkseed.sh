#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what": takes /repo's working-tree diff as the patch and restores /repo. Development tool.
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
[ -s $d/patch.diff ] && echo made $1
