#!/bin/bash
# Builds the harness, each package with the features it is checked with.
set -eu
. /verif/env.sh
cd /verif/harness
CARGO_TARGET_DIR=$VERIF_TARGET cargo build -p hv-core --offline
CARGO_TARGET_DIR=$VERIF_TARGET cargo build -p hv-df --offline
/verif/pyhudi.sh
