#!/bin/bash
# Run in /repo after its build: exits 0 when the library behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=/repo/crates/@CRATE@/tests/seeded_demo.rs
had=1; [ -d /repo/crates/@CRATE@/tests ] || { had=0; mkdir -p /repo/crates/@CRATE@/tests; }
cp "$here/demo.rs" "$t"
timeout 280 cargo test --manifest-path /repo/crates/@CRATE@/Cargo.toml --all-features --offline --test seeded_demo -- --nocapture
rc=$?
rm -f "$t"
[ $had = 1 ] || rmdir /repo/crates/@CRATE@/tests
exit $rc
