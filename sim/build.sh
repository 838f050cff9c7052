#!/bin/bash
# Builds the simulator and the instrumented code under test from /repo's
# working tree. Usage: build.sh [lib] [cli]
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=${SIM_OUT:-$HERE/../target}
mkdir -p "$OUT"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=$HERE/wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_TARGET_DIR
OUT=$(cd "$OUT" && pwd)
exec 9>"$OUT/.lock"
flock 9
cc() { gcc -O2 -g -fno-builtin -Wall -Wno-nonnull-compare -Wno-unused-function -fno-sanitize=all "$@"; }
what="$*"
[ -n "$what" ] || what="lib cli"
pids=()
if [[ $what == *lib* ]]; then
  (
    cc -DSIM_INPROC -c -fPIC -o "$OUT/simos.o.new" "$HERE/simos.c"
    cmp -s "$OUT/simos.o.new" "$OUT/simos.o" || cp "$OUT/simos.o.new" "$OUT/simos.o"
    export SIMOS_O=$OUT/simos.o
    # Cargo goes by time stamps; have what depends on /repo built anew.
    rm -rf "$OUT"/lib/release/.fingerprint/layout-rs-* "$OUT"/lib/release/.fingerprint/simcheck-*
    cd "$HERE"
    CARGO_TARGET_DIR=$OUT/lib cargo build --release --locked --offline -q 2>"$OUT/lib.log" || { cat "$OUT/lib.log" >&2; exit 1; }
  ) & pids+=($!)
fi
if [[ $what == *cli* ]]; then
  (
    cc -shared -fPIC -o "$OUT/libsimos.so" "$HERE/simos.c" -ldl -lpthread
    rm -rf "$OUT"/cli/release/.fingerprint/layout-rs-* "$OUT"/cli/release/.fingerprint/layout-cli-*
    export CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true
    export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_PANIC=unwind CARGO_PROFILE_RELEASE_INCREMENTAL=false
    cd "$REPO"
    CARGO_TARGET_DIR=$OUT/cli cargo rustc --release --offline -q --bin layout -- "-Clink-arg=$OUT/libsimos.so" \
      "-Clink-arg=-Wl,-rpath,$OUT" -Clink-arg=-Wl,--no-as-needed 2>"$OUT/cli.log" || { cat "$OUT/cli.log" >&2; exit 1; }
  ) & pids+=($!)
fi
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
