#!/bin/bash
# Dump the type-checked MIR of every workspace crate of /repo (and of the prelude) as JSON.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export CARGO_NET_OFFLINE=true
if [ ! -x $V/driver/target/debug/mirdump ] || [ $V/driver/src/main.rs -nt $V/driver/target/debug/mirdump ]; then
  (cd $V/driver && cargo +nightly build --offline -q)
fi
OUT=$V/.build/dump
mkdir -p $OUT
export RUSTFLAGS=-Awarnings
exec 9>$V/.build/lock
flock 9
for p in prelude spec; do
  if [ ! -f $OUT/$p.json ] || [ -n "$(find $V/$p/src -newer $OUT/$p.json -print -quit)" ] || [ $V/driver/target/debug/mirdump -nt $OUT/$p.json ]; then
    touch $V/$p/src/lib.rs
    MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$V/driver/target/debug/mirdump CARGO_TARGET_DIR=$V/.build/ptarget cargo +nightly check -q --offline --manifest-path $V/$p/Cargo.toml --lib
    touch $OUT/$p.json
  fi
done
[ "$1" = prelude ] && exit 0
R=/repo
if [ ! -f $R/Cargo.lock ] && [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock $R/Cargo.lock; fi
for c in bencode common dht torrent-rs; do
  [ -d "$V/.build/target/debug/build/$c" ] && find "$V/.build/target/debug/build/$c" -delete
  find $V/.build/target/debug/.fingerprint -maxdepth 1 -name "$c-*" -exec rm -rf {} + 2>/dev/null || true
  rm -f "$OUT/$c.json" "$OUT/${c//-/_}.json"
done
MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$V/driver/target/debug/mirdump CARGO_TARGET_DIR=$V/.build/target \
  cargo +nightly check -q --offline --manifest-path $R/Cargo.toml --workspace --lib --bins 2>$OUT/cargo.log || { cat $OUT/cargo.log; exit 3; }
ls $OUT
