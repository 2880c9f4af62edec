#!/bin/bash
# run.sh ID [--replay FILE]   build from /repo's working tree, then decide one property
# run.sh --build              build everything
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
harness() { # features, name
    cargo build -q --offline --locked --manifest-path "$V/harness/Cargo.toml" $1 --target-dir "$V/target/$2" 2>&1
}
tools() {
    CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true \
        cargo build -q --offline --manifest-path /repo/Cargo.toml --bins --target-dir "$V/target/tools" 2>&1
}
shim() { gcc -shared -fPIC -O1 -o "$V/target/faultfs.so.$$" "$V/harness/faultfs.c" && mv "$V/target/faultfs.so.$$" "$V/target/faultfs.so"; }
fail() { echo "build failed: $1" >&2; tail -n 30 "$2" >&2; exit 2; }
mkdir -p "$V/target"
log=$(mktemp -d "${TMPDIR:-/tmp}/vmon-build.XXXXXX") || exit 2
trap 'rm -rf "$log"' EXIT
id=$1
shift
case $id in
C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C14|C21|C33)
    harness "--features cpu" cpu > "$log/h" || fail harness "$log/h"
    bin=$V/target/cpu/debug/vmon ;;
C22|C23)
    harness "--features obj" obj > "$log/h" || fail harness "$log/h"
    bin=$V/target/obj/debug/vmon ;;
C20)
    tools > "$log/t" & tp=$!
    harness "--features cpu" cpu > "$log/h" || fail harness "$log/h"
    wait $tp || fail tools "$log/t"
    bin=$V/target/cpu/debug/vmon ;;
--build)
    shim 2> "$log/s" || fail "fault injector" "$log/s"
    harness "--features cpu" cpu > "$log/h" || fail harness "$log/h"
    harness "--features obj" obj > "$log/h" || fail harness "$log/h"
    harness "" plain > "$log/h" || fail harness "$log/h"
    tools > "$log/t" || fail tools "$log/t"
    exit 0 ;;
C*)
    if [ "$id" = C24 ] || [ "$id" = C35 ]; then shim 2> "$log/s" || fail "fault injector" "$log/s"; fi
    tools > "$log/t" & tp=$!
    harness "" plain > "$log/h" || fail harness "$log/h"
    wait $tp || fail tools "$log/t"
    bin=$V/target/plain/debug/vmon ;;
*) echo "usage: run.sh ID [--replay FILE]" >&2; exit 2 ;;
esac
rm -rf "$log"
trap - EXIT
exec "$bin" "$id" --tools "$V/target/tools/debug" --verif "$V" "$@"
