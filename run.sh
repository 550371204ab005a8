#!/bin/bash
# run.sh <property> <quick|thorough>   check one property against /repo's working tree
# run.sh replay <file>                 execute the case of a replay file again
# run.sh setup                         build only
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export MC_VERIF="$V"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
T="$V/target"
mkdir -p "$T"
sum() { # what the build depends on
    { find "$V/harness" /repo/src /repo/Cargo.toml /repo/Cargo.lock /repo/build.rs /repo/.cargo "$V/run.sh" -path "$V/harness/target" -prune -o -type f -print0 2>/dev/null \
        | sort -z | xargs -0 sha256sum; cargo --version; } | sha256sum
}
build() {
    local log="$T/build.log" want
    want="$(sum)"
    MC=
    if [ "$1" = C21 ] || [ "$1" = all ]; then
        # built as shipped: no overflow checks, no debug assertions
        MC="$T/ship/release/mc"
        if [ "$(cat "$T/shipsum" 2>/dev/null)" != "$want" ]; then
            rm -f "$T/shipsum"
            rm -rf "$T"/ship/release/.fingerprint/retrocompressor-*
            cargo build --offline --locked --release --config profile.release.overflow-checks=false --config profile.release.debug-assertions=false \
                --manifest-path "$V/harness/Cargo.toml" --target-dir "$T/ship" >"$log" 2>&1 || { cat "$log" >&2; echo "run.sh: build failed" >&2; exit 2; }
            echo "$want" >"$T/shipsum"
        fi
        [ "$1" = C21 ] && return
    fi
    export MC_CLI="$T/cli/release/retrocompressor"
    # cargo goes by modification times, this goes by content
    if [ "$(cat "$T/sum" 2>/dev/null)" = "$want" ]; then
        MC="$(cat "$T/which")"
    else
        rm -f "$T/sum" "$T/clisum"
        rm -rf "$T"/mc/release/.fingerprint/retrocompressor-* "$T"/nohook/release/.fingerprint/retrocompressor-*
        # the hooks are optional: a tree they do not fit is checked without them
        if RUSTFLAGS="--cfg retro_verif" cargo build --offline --locked --release --manifest-path "$V/harness/Cargo.toml" --target-dir "$T/mc" >"$log" 2>&1; then
            MC="$T/mc/release/mc"
        elif cargo build --offline --locked --release --manifest-path "$V/harness/Cargo.toml" --target-dir "$T/nohook" >"$log" 2>&1; then
            MC="$T/nohook/release/mc"
            echo "note: hooks do not fit this tree, checking without them"
        else
            cat "$log" >&2
            echo "run.sh: build failed" >&2
            exit 2
        fi
        echo "$MC" >"$T/which"
        echo "$want" >"$T/sum"
    fi
    if { [ "$1" = C14 ] || [ "$1" = all ]; } && [ "$(cat "$T/clisum" 2>/dev/null)" != "$want" ]; then
        rm -rf "$T"/cli/release/.fingerprint/retrocompressor-*
        cargo build --offline --locked --release --manifest-path /repo/Cargo.toml --target-dir "$T/cli" --bin retrocompressor >"$log" 2>&1 || { cat "$log" >&2; echo "run.sh: build of the tool failed" >&2; exit 2; }
        echo "$want" >"$T/clisum"
    fi
}
case "${1:-}" in
setup)
    (flock 9; build all) 9>"$T/lock" ;;
replay)
    exec 9>"$T/lock"; flock 9; if grep -q '"property": "C21"' "$2"; then build C21; else build C14; fi; flock -u 9; exec 9>&-
    exec "$MC" replay "$2" ;;
C[0-9][0-9])
    exec 9>"$T/lock"; flock 9; build "$1"; flock -u 9; exec 9>&-
    exec "$MC" run "$1" "${2:-quick}" ;;
*)
    echo "usage: run.sh <property> <quick|thorough> | replay <file> | setup" >&2; exit 2 ;;
esac
