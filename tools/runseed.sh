#!/bin/bash
# runseed.sh ID...: run the property's check against each planted bug (scratch copy of the sources)
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
 P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
 W=$(mktemp -d /tmp/rs.XXXX); git clone -q /repo $W/r; git -C $W/r apply $V/seeded/$ID/patch.diff || echo NOAPPLY
 cp -r $V/cdv $V/harness $V/check $V/known_findings.json $W/ 2>/dev/null
 (cd $W && CDV_REPO=$W/r timeout 900 ./check $P > $W/out 2>&1; echo "== $ID $P rc=$?"; grep -E "VIOLATION|failed obl|KNOWN|concrete|^note|Error|error" $W/out | cut -c1-260 | head -${LINES_:-6}; tail -1 $W/out | cut -c1-200)
 rm -rf $W
done
