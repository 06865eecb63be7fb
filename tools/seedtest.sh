#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy mounted over /repo (private mount namespace)
ID=$1; SD=$(cd "$(dirname "$0")/../seeded/$ID" && pwd); W=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo/. $W/
unshare -m bash -c '
mount --bind '$W' /repo; cd /repo
rm -rf /tmp/sd.$$; mkdir /tmp/sd.$$; cp '$SD'/* /tmp/sd.$$/
bash /opt/vp/build.sh >/dev/null 2>&1
bash /tmp/sd.$$/demo.sh >/tmp/sd.$$/o0 2>&1; echo "demo clean: $?"
git apply '$SD'/patch.diff || { echo NOAPPLY; exit; }
bash /opt/vp/build.sh >/tmp/sd.$$/b 2>&1 || { echo BUILDFAIL; tail -5 /tmp/sd.$$/b; exit; }
bash /tmp/sd.$$/demo.sh >/tmp/sd.$$/o1 2>&1; echo "demo patched: $?"; tail -2 /tmp/sd.$$/o1
if [ "'$2'" != notest ]; then bash /opt/vp/test.sh /tmp/sd.$$/t.json >/dev/null 2>&1
python3 - /tmp/sd.$$/t.json <<E2
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open(sys.argv[1]))
p=set(t.get("passed",t.get("pass",[])))
print("stable tests now failing:", len(b-p), sorted(b-p)[:5])
E2
fi
rm -rf /tmp/sd.$$'
rm -rf $W
