#!/bin/bash
# usage: seed.sh <id> <property> <needs> <what>   -- stores the current diff of the scratch tree /tmp/sr as /verif/seeded/<id> (demo.py read from stdin), checks the demo both ways
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /tmp/sr
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch $id"; exit 1; }
cat > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
X
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
bash $d/demo.sh > /tmp/demo.bad 2>&1 && echo "$id: DEMO DOES NOT FAIL WITH PATCH" || { echo "$id: demo fails with patch: $(tail -1 /tmp/demo.bad | cut -c1-150)"; }
git checkout -q -- .
bash $d/demo.sh > /tmp/demo.ok 2>&1 && echo "$id: demo ok clean" || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 /tmp/demo.ok; }
cd /repo && git apply --check $d/patch.diff
