#!/bin/bash
# Runs each seeded bug's check against a patched copy of /repo: evalseeds.sh [id...]   (logs in /tmp/plant/eval)
set -u
W=/tmp/plant/eval; mkdir -p $W/verif $W/log
[ -d $W/repo ] || cp -a /repo $W/repo
rsync -a --delete --exclude seeded --exclude .git --exclude harness/target /verif/ $W/verif/ 2>/dev/null || { find $W/verif -mindepth 1 -maxdepth 1 ! -name harness -exec rm -rf {} +; (cd /verif; tar cf - --exclude=./seeded --exclude=./.git --exclude=./harness/target .) | tar xf - -C $W/verif; }
sed -i "s#path = \"[^\"]*repo\"#path = \"$W/repo\"#" $W/verif/harness/Cargo.toml
grep -rl '/repo' $W/verif/check.sh $W/verif/harness/src | xargs -r sed -i "s#/repo\b#$W/repo#g"
cd $W/verif
for id in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . && git -C $W/repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  t=$SECONDS
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p >$W/log/$id 2>&1; r=$?
  echo "$id $p rc=$r $((SECONDS-t))s $(grep -m1 VIOLATION $W/log/$id | cut -c1-200)"
done
git -C $W/repo checkout -q -- .
