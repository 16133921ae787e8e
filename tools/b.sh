. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/simt RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh CARGO_INCREMENTAL=0; cd /verif/sim; cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)" -A16 | head -${1:-120}
