#!/bin/bash
# Build the simulator against /repo's working tree, then run it:
#   ./run.sh check P01        ./run.sh replay replays/P01-....json
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/sim/target/i"
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
log="$(mktemp)"
if ! (cd "$here/sim" && cargo build --locked --offline) >"$log" 2>&1; then
    echo "the simulator does not build against /repo:" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
case "$*" in
*P19*)
    # The same simulator around the crate with every other set of features.
    dir="$CARGO_TARGET_DIR/debug"
    variants() {
        for m in $2; do
            f=
            [ $((m & 1)) != 0 ] && f="$f,ff"
            [ $((m & 2)) != 0 ] && f="$f,fs"
            [ $((m & 4)) != 0 ] && f="$f,fu"
            rm -f "$dir/upsim-f$m" "$dir/upsim-f$m.log"
            if (cd "$here/sim" && CARGO_TARGET_DIR="$here/sim/target/$1" CARGO_PROFILE_DEV_DEBUG=0 \
                cargo build --locked --offline --no-default-features --features "${f#,}") \
                >"$dir/upsim-f$m.log" 2>&1; then
                cp "$here/sim/target/$1/debug/upsim" "$dir/upsim-f$m"
            fi
        done
    }
    variants v0 "1 0 5" &
    variants v1 "3 4 2 6"
    wait
    ;;
esac
export UPSIM_HOME="$here"
exec "$CARGO_TARGET_DIR/debug/upsim" "$@"
