#!/bin/bash
# seednew.sh ID PROPERTY "needs" "breaks": makes /verif/seeded/ID from the changes in /tmp/edit (a copy of /repo's sources under git) and /tmp/demo.py
V=/verif; D=$V/seeded/$1; mkdir -p $D
git -C /tmp/edit diff > $D/patch.diff; git -C /tmp/edit checkout -q -- .
cp $V/tools/seedlib/simlib.py $V/scen/lib.py $D/; cp $V/harness/prebuilt/refsim.xz $D/; mv /tmp/demo.py $D/demo.py
grep -q fm_core $D/demo.py && cp $V/scen/fm_core.py $D/
printf '#!/bin/bash\ncd "$PWD" && PYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n' > $D/demo.sh
python3 - "$@" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
wc -l $D/patch.diff
