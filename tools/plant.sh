#!/bin/bash
# plant.sh ID: confirm seeded/ID in the scratch copy /tmp/plant/repo (made on first use): the demonstration passes
# without the patch and fails with it, and the patched tree builds and passes the stable tests.
P=/tmp/plant; R=$P/repo; S=/verif/seeded/$1
if [ ! -d $R ]; then
  mkdir -p $P; cp -a /repo $R
  sed 's#/repo#/tmp/plant/repo#g; s#/opt/vp/log#/tmp/plant/log#g; s#vp:/opt/vp/nextest#vp:/tmp/plant/nextest#' /opt/vp/test.sh >$P/test.sh
  sed 's#/repo#/tmp/plant/repo#g' /opt/vp/build.sh >$P/build.sh
  sed 's#/opt/vp/log#/tmp/plant/log#g' /opt/vp/nextest.toml >$P/nextest.toml
fi
mkdir -p $P/log
git -C $R checkout -q -- . && git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
cd $R
if [ "$2" != nobase ]; then
  bash $P/build.sh >$P/b.log 2>&1 || { echo "base build failed"; exit 1; }
  rm -rf $P/demo; cp -r $S $P/demo; rm -f $P/demo/*.diff $P/demo/meta.json
  bash $P/demo/demo.sh >$P/d0.log 2>&1; echo "$1 demo base: $?"
fi
git apply $S/patch.diff || exit 1
bash $P/build.sh >$P/b.log 2>&1 || { echo "patched build failed"; grep -A8 '^error' $P/b.log | head -40; git checkout -q -- .; exit 1; }
rm -rf $P/demo; cp -r $S $P/demo; rm -f $P/demo/*.diff $P/demo/meta.json
bash $P/demo/demo.sh >$P/d1.log 2>&1; echo "$1 demo patched: $? ($(tail -1 $P/d1.log | cut -c1-150))"
bash $P/test.sh $P/t.json >$P/tt.log 2>&1
python3 - <<'X'
import json
t=json.load(open('/tmp/plant/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]; print('stable', len(b['stable']), 'missing', len(m), m[:3])
X
git checkout -q -- .
