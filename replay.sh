#!/bin/bash
# replay.sh FILE: runs one recorded case again; exit 1 if it still fails.
set -u
. /verif/env.sh
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1")
case $id in
  C15) pkg=hv-df ;;
  *) pkg=hv-core ;;
esac
( cd /verif/harness && CARGO_TARGET_DIR=$VERIF_TARGET cargo build -p $pkg --offline ) >/dev/null 2>&1 || exit 2
if [ "$id" = C16 ]; then /verif/pyhudi.sh >/dev/null 2>&1 || exit 2; fi
exec $VERIF_TARGET/debug/$pkg replay "$1"
