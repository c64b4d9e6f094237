# Builds what the checks need, from /repo's working tree and the committed files of /verif.
# Everything goes to /verif/target; /repo is not written to.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
T="$V/target"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS LD_PRELOAD

# Cargo decides by modification times what to rebuild; a copy of the tree may have any. So the
# content decides: when it differs from what was last built, cargo's notes on cbindgen are dropped.
freshen() {
  local h
  h=$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
  if [ "$h" != "$(cat "$T/repo.sum" 2>/dev/null)" ]; then
    rm -rf "$T"/repo/debug/build/cbindgen "$T"/driver/debug/build/cbindgen "$T"/driver/debug/build/*driver* \
      "$T"/repo/debug/.fingerprint/cbindgen-* "$T"/driver/debug/.fingerprint/cbindgen-* "$T"/driver/debug/.fingerprint/*driver*
    echo "$h" >"$T/repo.sum"
  fi
}
build_all() {
  mkdir -p "$T/bin" "$T/log"
  freshen
  ( cd "$V/shim" &&
    gcc -O2 -g -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC -fvisibility=hidden -fno-builtin -Wno-nonnull-compare -o "$T/bin/libvsim.so" shim.c -ldl -lpthread &&
    gcc -O2 -static -U_FORTIFY_SOURCE -o "$T/bin/stub" stub.c ) >"$T/log/shim" 2>&1 &
  local a=$!
  ( cd /repo && cargo build --offline --bin cbindgen --target-dir "$T/repo" ) >"$T/log/repo" 2>&1 &
  local b=$!
  ( cd "$V/driver" && cargo build --offline --target-dir "$T/driver" ) >"$T/log/driver" 2>&1 &
  local c=$!
  ( cd "$V/sim" && cargo build --offline --target-dir "$T/sim" ) >"$T/log/sim" 2>&1 &
  local d=$!
  local bad=0
  wait $a || { bad=1; echo "build of the shim failed"; tail -20 "$T/log/shim"; }
  wait $b || { bad=1; echo "build of /repo failed"; tail -40 "$T/log/repo"; }
  wait $c || { bad=1; echo "build of the driver failed"; tail -40 "$T/log/driver"; }
  wait $d || { bad=1; echo "build of the simulator failed"; tail -40 "$T/log/sim"; }
  return $bad
}
vsim() {
  "$T/sim/debug/vsim" --shimdir "$T/bin" --cbindgen "$T/repo/debug/cbindgen" --driver "$T/driver/debug/driver" --verif "$V" "$@"
}
