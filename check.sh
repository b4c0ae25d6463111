#!/bin/bash
# check.sh ID [PART]: builds the harness against /repo's working tree and runs one check.
set -u
. /verif/env.sh
id=$1
case $id in
  C15) pkg=hv-df ;;
  *) pkg=hv-core ;;
esac
log=$(mktemp /tmp/hv-build.XXXXXX)
if ! ( cd /verif/harness && CARGO_TARGET_DIR=$VERIF_TARGET cargo build -p $pkg --offline ) >"$log" 2>&1; then
  tail -60 "$log" >&2; rm -f "$log"
  echo "the harness does not build" >&2
  exit 2
fi
if [ "$id" = C16 ] && ! /verif/pyhudi.sh >"$log" 2>&1; then
  tail -60 "$log" >&2; rm -f "$log"
  echo "the Python module does not build" >&2
  exit 2
fi
rm -f "$log"
exec $VERIF_TARGET/debug/$pkg check "$@"
