#!/bin/bash
# build.sh OUT.so [VARIANT]: the program in /repo's working tree, for the Solana VM; with
# VARIANT, the crate /verif/variants/VARIANT around it.
# Exit 0: OUT.so is the program of the current tree. Exit 3: it does not compile.
set -u
out=$(realpath -m "$1"); var=${2:-}
B=/verif/build; mkdir -p $B/so $B/log "$(dirname "$out")"
exec 9>$B/sbf.lock; flock 9
here=/opt/vp/sbpf
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$B/sbpf CARGO_INCREMENTAL=0
export __CARGO_TESTS_ONLY_SRC_ROOT=$here/rustsrc/library RUSTC_BOOTSTRAP_SYNTHETIC_TARGET=1
export CARGO_PROFILE_RELEASE_OPT_LEVEL=s CARGO_PROFILE_RELEASE_PANIC=abort
export RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic"
unset LD_LIBRARY_PATH
cfg=(); for p in mpl-token-metadata spl-token-2022 spl-token-2022-interface serde_json borsh solana-zk-sdk; do
  cfg+=(--config "profile.release.package.$p.codegen-units=1"); done
src=/repo pkg=spl-token-wrap name=spl_token_wrap lock=--locked
if [ -n "$var" ]; then
  src=$B/variants/$var pkg=wrap_variant_$var name=wrap_variant_$var lock=
  mkdir -p $src; cp -ru /verif/variants/$var/. $src/
  # the repository's own versions
  [ -f $src/Cargo.lock ] && [ ! /repo/Cargo.lock -nt $src/.lock-from ] || { cp /repo/Cargo.lock $src/Cargo.lock; touch $src/.lock-from; }
fi
cd $src || exit 2
one() {
  cargo rustc --release --offline $lock --lib --target $here/sbpf-solana.json -Zjson-target-spec \
    -Zbuild-std=std,panic_abort -Zbuild-std-features= --crate-type cdylib -p $pkg "${cfg[@]}" \
    -- -C linker=/verif/tools/sbf/sbpf-linker
}
so=$B/sbpf/sbpf-solana/release/lib$name.so
one > $B/log/sbf$var.log 2>&1
rc=$?
if [ $rc != 0 ]; then
  # the usual input order, in case the quick order is what failed
  WRAPMON_PLAIN_LINK=1 one > $B/log/sbf$var.2.log 2>&1 || { tail -30 $B/log/sbf$var.log; exit 3; }
fi
[ -s "$so" ] || { echo "no program produced"; exit 3; }
cp "$so" "$out.tmp.$$" && mv "$out.tmp.$$" "$out"
