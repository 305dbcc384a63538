#!/bin/bash
# dev helper: combo.sh ID...: apply several planted changes at once to a copy and run the stable tests once
W=/tmp/wc
rm -rf /tmp/wc/src; [ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq
for i in "$@"; do git apply /verif/seeded/$i/patch.diff && echo applied $i || echo "SKIP $i"; done
sed "s#/repo#$W#g; s#/opt/vp/logs#/tmp/wclogs#" /opt/vp/build.sh > /tmp/wcbuild.sh
sed "s#/repo#$W#g; s#/opt/vp/logs#/tmp/wclogs#" /opt/vp/test.sh > /tmp/wctest.sh
bash /tmp/wcbuild.sh > /tmp/wcbuild.log 2>&1; echo "build $?"
bash /tmp/wctest.sh /tmp/wcres.json > /dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/wcres.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return set(k for k,v in d.get('tests',d).items() if v in ('pass','passed','ok'))
m=sorted(passed(b)-passed(t)); print('tests missing', len(m), m[:30])
P
