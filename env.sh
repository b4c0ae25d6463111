# Sourced by every script of /verif.
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset VIRTUAL_ENV PYO3_PYTHON PYTHONPATH CARGO_BUILD_TARGET RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export PYTHONDONTWRITEBYTECODE=1
export VERIF_TARGET=/verif/target
export HV_PYHUDI=/verif/target/pyhudi HV_PYTHON=/opt/vp/venv/bin/python
b() { ( cd /verif/harness && CARGO_TARGET_DIR=$VERIF_TARGET cargo build -p hv-core --offline "$@" 2>&1 | grep -E '^error' -A9 | head -80 ); }
