#!/bin/bash
# sweep.sh "SEEDS" [IDS]: runs a copy of the built harness over several seeds, printing what is not quiet.
. /verif/env.sh
ids=${2:-$(python3 -c "import json;print(' '.join(p['property'] for p in json.load(open('/verif/MANIFEST.json'))['checks']))")}
d=$(mktemp -d /tmp/sweep.XXXXXX)
cp $VERIF_TARGET/debug/hv-core $d/
[ -f $VERIF_TARGET/debug/hv-df ] && cp $VERIF_TARGET/debug/hv-df $d/; cp /verif/known_findings.json $d/
# C16 compares with the Python package as built for /verif (pyhudi.sh).
for s in $1; do for c in $ids; do
  bin=hv-core; [ $c = C15 ] && bin=hv-df
  o=$(VERIF_DIR=$d VERIF_SEED=$s $d/$bin check $c 2>&1); rc=$?
  [ $rc = 0 ] || { echo "seed $s $c rc $rc"; echo "$o" | tail -4 | cut -c1-400; cp $d/replays/$c-0.json /tmp/sweep-$c-$s.json 2>/dev/null; }
done; done; echo swept; rm -rf $d
