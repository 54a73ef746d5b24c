#!/bin/bash
# apply one seed in a scratch copy and run a check verbosely: tryseed.sh SEED [PID] [only]
rm -rf /tmp/ts && git clone -q /repo /tmp/ts && (cd /tmp/ts && git apply /verif/seeded/$1/patch.diff)
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
cd /verif && SA_REPO=/tmp/ts SA_VERBOSE=1 python3 sa/check.py $P 2>/dev/null ${3:+--only="$3"} 2>/dev/null | grep -v " holds " | cut -c1-${W:-260} | head -${L:-14}
