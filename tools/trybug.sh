#!/bin/bash
# trybug.sh BUG [CHECK]: apply a seeded bug in /repo, build, run the check, undo.
b=$1; c=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$b/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1
/verif/run.py $c --tier quick --seed ${SEED:-1} | grep -E '^(check|VIOLATION|wall)' | cut -c1-300 | tail -3; 
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
