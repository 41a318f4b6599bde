#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : stores the scratch copy's diff as a planted bug (demo.sh from stdin)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/dvseed/repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty diff $1"; exit 1; }
python3 - "$@" <<'PY'
import json,sys
_,i,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
PY
cat > $d/demo.sh
git -C /tmp/dvseed/repo checkout -q -- .
