#!/bin/bash
# new.sh ID PROP "needs" "what it breaks" < main.rs : from the changes in /repo
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/plant/demo.sh /verif/plant/kit.rs $d/
cat > $d/main.rs
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
