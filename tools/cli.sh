#!/bin/bash
# The command-line client of /repo, debug build (arithmetic overflow checks on). Exit 3: it does not compile.
mkdir -p /verif/build/log
exec 9>/verif/build/cli.lock; flock 9
. /verif/tools/henv.sh
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=1
cd /repo && cargo build --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap --target-dir /verif/build/cli > /verif/build/log/cli.log 2>&1 || { tail -30 /verif/build/log/cli.log; exit 3; }
