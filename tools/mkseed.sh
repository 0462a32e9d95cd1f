#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": records /repo's uncommitted change as a seeded bug and undoes it
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
git -C /repo checkout -- .
