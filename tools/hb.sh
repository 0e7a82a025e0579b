. /verif/tools/henv.sh
CARGO_TARGET_DIR=/verif/build/target cargo build --release --offline --manifest-path /verif/harness/Cargo.toml 2>&1 | grep -E "^error" -A12 | head -${1:-60}
