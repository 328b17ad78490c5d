#!/bin/bash
# dev helper: b.sh <bin> [args]: native build+run
. /opt/vp/env.sh 2>/dev/null
cd /verif/harness
RUSTFLAGS="--cap-lints allow -Awarnings" CARGO_TARGET_DIR=/verif/target/n cargo build --offline -q --all-features --bin $1 2>&1 | grep -E "^error" -A14 | head -${LINES_MAX:-80}
b=$1; shift
[ -x /verif/target/n/debug/$b ] && /verif/target/n/debug/$b "$@" 2>&1 | cut -c1-700
