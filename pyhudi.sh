#!/bin/bash
# Builds the Python package from /repo's working tree into $HV_PYHUDI, as /opt/vp/build.sh does but leaving /repo/python alone.
set -eu
. /verif/env.sh
cd /repo
( . /opt/vp/env.sh; unset RUSTFLAGS; CARGO_TARGET_DIR=/repo/target cargo build --workspace --all-features --offline )
rm -rf /verif/target/pyhudi
mkdir -p /verif/target/pyhudi
cp -r /repo/python/hudi /verif/target/pyhudi/hudi
rm -rf /verif/target/pyhudi/hudi/__pycache__ /verif/target/pyhudi/hudi/_internal.abi3.so
ln -s /repo/target/debug/libhudi.so /verif/target/pyhudi/hudi/_internal.abi3.so
