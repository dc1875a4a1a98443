#!/bin/bash
# plant.sh ID [check]: is /verif/seeded/ID a bug that counts, and does the check of its property see it?
cd /repo || exit 2
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 2; }
if [ -z "$2" ]; then
bash $d/demo.sh >/tmp/demo.log 2>&1; a=$?
git apply $d/patch.diff || exit 2
t=$(bash /verif/t.sh | head -2 | tr '\n' ' ')
bash $d/demo.sh >/tmp/demo2.log 2>&1; b=$?
echo "$1 ($p): demo clean $a, planted $b, tests: $t"
[ $a = 0 ] || tail -5 /tmp/demo.log
tail -2 /tmp/demo2.log | cut -c1-300
else git apply $d/patch.diff || exit 2; fi
s=$(date +%s); timeout 900 bash /verif/check.sh $p quick >/tmp/check.log 2>&1; c=$?
echo "  check $c in $(($(date +%s)-s)) s: $(grep -E 'VIOLATION|failing run' /tmp/check.log | head -2 | cut -c1-400 | tr '\n' ' ')"
git checkout -- .
rm -f /verif/replay/$p-*
