#!/bin/bash
# plant.sh ID...: tries planted bugs against a scratch copy of the repository and of this directory, bind-mounted in a
# private namespace: demonstration with and without the change, the stable tests with it, and the property's check.
# Appends lines to /tmp/s/plant.log.
S=/tmp/s
if [ -z "${INSIDE:-}" ]; then
  mkdir -p $S
  [ -d $S/repo ] || cp -a /repo $S/repo
  [ -d $S/verif ] || cp -a /verif $S/verif
  git -C $S/repo checkout -q -- . ; git -C $S/repo clean -qfd -- crates
  rsync -a --exclude target --exclude _internal.abi3.so /repo/ $S/repo/ 2>/dev/null || { git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD; }
  for d in harness tools seeded; do [ -d $S/verif/$d ] && find $S/verif/$d -mindepth 1 -maxdepth 1 -exec rm -rf {} +; mkdir -p $S/verif/$d; cp -a /verif/$d/. $S/verif/$d/; done
  cp -a /verif/*.sh /verif/*.json /verif/*.jsonl $S/verif/
  exec unshare -Urm env INSIDE=1 bash -c "mount --bind $S/repo /repo && mount --bind $S/verif /verif && exec bash $S/verif/tools/plant.sh $*"
fi
cd /repo
say() { echo "$(date +%H:%M:%S) $*" | tee -a $S/plant.log; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git checkout -q -- .
  if [ -z "${NOCLEAN:-}" ]; then
    bash /opt/vp/build.sh >$S/build.log 2>&1 || { say "$id CLEAN BUILD FAILS"; continue; }
    rm -rf $S/d; cp -a $d $S/d; rm -f $S/d/patch.diff $S/d/meta.json
    bash $S/d/demo.sh >$S/demo-clean-$id.log 2>&1; c=$?
  else c=-; fi
  git apply $d/patch.diff || { say "$id DOES NOT APPLY"; continue; }
  if ! bash /opt/vp/build.sh >$S/build.log 2>&1; then say "$id DOES NOT BUILD"; grep -E '^error' -A8 $S/build.log | head -20; git checkout -q -- .; continue; fi
  rm -rf $S/d; cp -a $d $S/d; rm -f $S/d/patch.diff $S/d/meta.json
  bash $S/d/demo.sh >$S/demo-patched-$id.log 2>&1; p=$?
  if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/test.sh $S/test.json >/dev/null 2>&1
    miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('$S/test.json'))
m=[t for t in b['stable'] if t not in r['passed']];print(len(m),*m[:3])")
  else miss=-; fi
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/check.sh $prop >$S/check-$id.log 2>&1; k=$?
  v=$(grep -c "^VIOLATION property=$prop " $S/check-$id.log)
  say "$id $prop clean=$c patched=$p tests-missing=$miss check=$k violations=$v"
  git checkout -q -- .
done
