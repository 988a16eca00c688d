#!/bin/bash
# seedtest.sh ID...: demo without and with the change, existing tests with it, then the property's check
# NODEMO=1 / NOTEST=1 skip parts. Everything but the check runs in a scratch copy.
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
r="$id $p:"
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo.out 2>&1 && r+=" demo ok;" || r+=" DEMO FAILS UNCHANGED;"; fi
git apply $d/patch.diff || { echo "$r does not apply"; continue; }
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo.out 2>&1 && r+=" DEMO PASSES WITH CHANGE;" || r+=" demo shows it;"; fi
if [ -z "$NOTEST" ]; then r+=" $(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1);"; fi
cd /verif; $(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0])") >/tmp/check.out 2>&1; r+=" check exit $?"
git -C /repo checkout -q -- .
echo "$r"; grep -v "^C[0-9]*:" /tmp/check.out | head -${L:-2} | cut -c1-220
done
