#!/bin/bash
# The host build of /repo's library behind /verif/native. Exit 3: it does not compile.
mkdir -p /verif/build/log
exec 9>/verif/build/nat.lock; flock 9
. /verif/tools/henv.sh
CARGO_TARGET_DIR=/verif/build/native cargo build --release --offline --manifest-path /verif/native/Cargo.toml > /verif/build/log/native.log 2>&1 || { tail -30 /verif/build/log/native.log; exit 3; }
