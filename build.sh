#!/bin/bash
# build.sh VARIANT...: build the simulator with /repo's current working tree.
#   rel    optimised            inst   optimised, instrumented
#   dbg    unoptimised, debug assertions and overflow checks (library too)
#   nostd  optimised, default features off, no num-traits
#   asan   the node program (dst/emu) on a machine that checks addresses
#   emu-T  the node program on an interpreted machine (Miri) of architecture T;
#          where that machine cannot be set up, the variant is left out
# Prints nothing on success; the binaries are $VDIR/bin/dst-VARIANT.
set -e
export VDIR=${VDIR:-/verif/.build}
mkdir -p "$VDIR/lut" "$VDIR/bin" "$VDIR/log"
exec 9>"$VDIR/lock"; flock 9
if [ ! -e "$VDIR/lut/done" ]; then
    python3 /verif/lut/gen.py "$VDIR/lut" >"$VDIR/log/lut" 2>&1
    touch "$VDIR/lut/done"
fi
bash /verif/lut/mkws.sh "$VDIR/ws"
# a hash of everything compiled, so that no stale object can ever be used
H=$( (cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
      cd /verif/dst && find . -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
      rustc --version) | sha256sum | cut -c1-24)
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true DST_LUT_DIR="$VDIR/lut" CARGO_INCREMENTAL=0
one() {
    local v=$1 feats="std,nt" prof="release" wrap=""
    [ -x "$VDIR/bin/dst-$v" ] && [ "$(cat "$VDIR/bin/dst-$v.hash" 2>/dev/null)" = "$H" ] && return 0
    local out=release
    case $v in
        inst) wrap=/verif/dst/rustc_wrap.sh ;;
        dbg) prof=dev; out=debug ;;
        nostd) feats="" ;;
    esac
    rm -f "$VDIR/bin/dst-$v" "$VDIR/bin/dst-$v.hash"
    # cargo decides by file times; make sure the library is always considered changed
    find "$VDIR/tgt-$v" -path '*.fingerprint/f256-*' -delete 2>/dev/null || true
    if ! RUSTC_WRAPPER=$wrap CARGO_TARGET_DIR="$VDIR/tgt-$v" cargo build --manifest-path /verif/dst/Cargo.toml --profile $prof --offline --features "$feats" >"$VDIR/log/$v" 2>&1; then
        echo "build of variant $v failed:" >&2; tail -40 "$VDIR/log/$v" >&2
        return 2
    fi
    cp "$VDIR/tgt-$v/$out/dst" "$VDIR/bin/dst-$v"
    echo "$H" > "$VDIR/bin/dst-$v.hash"
}
stale() {
    [ -e "$VDIR/bin/$1" ] && [ "$(cat "$VDIR/bin/$1.hash" 2>/dev/null)" = "$H" ] && return 1
    rm -f "$VDIR/bin/$1" "$VDIR/bin/$1.hash"
    find "$VDIR/tgt-$1" -path '*.fingerprint/f256-*' -delete 2>/dev/null || true
}
asan() {
    stale emu-asan || return 0
    if ! RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$VDIR/tgt-emu-asan" cargo build --manifest-path /verif/dst/emu/Cargo.toml --release --offline --features std,nt --target x86_64-unknown-linux-gnu >"$VDIR/log/asan" 2>&1; then
        echo "build of variant asan failed:" >&2; tail -40 "$VDIR/log/asan" >&2
        return 2
    fi
    cp "$VDIR/tgt-emu-asan/x86_64-unknown-linux-gnu/release/emu" "$VDIR/bin/emu-asan"
    echo "$H" > "$VDIR/bin/emu-asan.hash"
}
emu() (
    stale "emu-$1" || return 0
    unset RUSTC_BOOTSTRAP RUSTUP_TOOLCHAIN
    T=$1-unknown-linux-gnu
    export MIRI_SYSROOT="$VDIR/miri/$1" CARGO_TARGET_DIR="$VDIR/tgt-emu-$1" MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
    cd /verif/dst/emu
    {
        if [ ! -e "$MIRI_SYSROOT.done" ]; then
            mkdir -p "$VDIR/miri"
            timeout 300 cargo +nightly miri setup --target "$T" || exit 0
            touch "$MIRI_SYSROOT.done"
        fi
        timeout 300 cargo +nightly miri run --target "$T" --offline --features std,nt || exit 0
        python3 args.py "$CARGO_TARGET_DIR/miri/$T/debug/emu" "$(rustup +nightly which miri)" "$MIRI_SYSROOT" >"$VDIR/bin/emu-$1.new" || exit 0
        mv "$VDIR/bin/emu-$1.new" "$VDIR/bin/emu-$1"
        echo "$H" > "$VDIR/bin/emu-$1.hash"
    } >"$VDIR/log/emu-$1" 2>&1
)
pids=()
for v in "$@"; do case $v in asan) asan ;; emu-*) emu "${v#emu-}" ;; *) one "$v" ;; esac & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
