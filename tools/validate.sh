#!/bin/bash
# dev helper: validate.sh ID [check...]: does a planted change build, pass the stable tests, fail its demo, and get caught?
# Works on copies under /tmp (w: the repository, hw: the harness); /repo is not touched.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/w; H=/tmp/hw
[ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq
mkdir -p $H /tmp/seedres
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ $H/ 2>/dev/null || { cd /verif; tar c --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./replays . | tar x -C $H; cd $W; }
sed -i "s#\"/repo#\"$W#" $H/harness/Cargo.toml $H/harness_ex/Cargo.toml 2>/dev/null
sed "s#/repo#$W#g; s#/opt/vp/logs#/tmp/wlogs#" /opt/vp/build.sh > /tmp/wbuild.sh
sed "s#/repo#$W#g; s#/opt/vp/logs#/tmp/wlogs#" /opt/vp/test.sh > /tmp/wtest.sh
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=/tmp/seedres/$id.txt; : > $R
( bash $S/demo.sh > /tmp/seedres/$id.demo0 2>&1 ); echo "demo-clean $?" >> $R
git apply $S/patch.diff || { echo "patch-fails" >> $R; cat $R; exit 1; }
( bash $S/demo.sh > /tmp/seedres/$id.demo1 2>&1 ); echo "demo-bug $?" >> $R
if [ -z "$NOTEST" ]; then
bash /tmp/wbuild.sh > /tmp/seedres/$id.build 2>&1; echo "build $?" >> $R
bash /tmp/wtest.sh /tmp/seedres/$id.json > /dev/null 2>&1
python3 - >> $R <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedres/$id.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return set(k for k,v in d.get('tests',d).items() if v in ('pass','passed','ok'))
print('tests missing', sorted(passed(b)-passed(t))[:5], len(passed(b)-passed(t)))
P
fi
for c in $prop "$@"; do
( cd $H && VH_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $c > /tmp/seedres/$id.$c 2>&1 ); echo "check $c $? $(grep -c VIOLATION /tmp/seedres/$id.$c)" >> $R
done
git checkout -q -- .
echo "== $id ($prop)"; cat $R
