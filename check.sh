#!/bin/bash
# check.sh PROP [quick|thorough]   run the check of one property against /repo's working tree
# check.sh replay FILE             run a replay file again
# check.sh build CFG...            only build
# Builds of the code under test: r64 release f64, c64 with debug assertions and overflow checks,
# r32/c32 the same with feature f32, miri the small program run in Miri, asan nightly with AddressSanitizer; a final m adds the
# observer-based properties.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export P2T_VERIF="$here"
export P2T_BIN="${P2T_BIN:-$here/target}"
export P2T_REGRESS="$here/harness/regress"
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR

build_one() {
    if [ "$1" = miri ]; then
        # an empty list of inputs: only builds
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks" \
            cargo +nightly miri run --offline --quiet --manifest-path "$here/miri/Cargo.toml" \
            --target-dir "$P2T_BIN/miri" </dev/null >/dev/null 2>"$P2T_BIN/miri.log" ||
            { echo "build miri failed:" >&2; grep -A12 '^error' "$P2T_BIN/miri.log" | head -60 >&2; return 2; }
        return 0
    fi
    local cfg="$1" base="${1%m}" feat="" tc="" extra="" sub="release"
    case "$cfg" in *m) feat="mesh" ;; esac
    case "$base" in *32) feat="$feat f32" ;; esac
    local args=(build --offline --quiet --manifest-path "$here/harness/Cargo.toml"
        --target-dir "$P2T_BIN/$base" --features "$feat")
    case "$base" in
        r*) args+=(--release) ;;
        c*) args+=(--profile checked); sub="checked" ;;
        asan) args+=(--release --target x86_64-unknown-linux-gnu); tc="+nightly"
            sub="x86_64-unknown-linux-gnu/release" ;;
        *) echo "unknown build $cfg" >&2; return 2 ;;
    esac
    (
        [ "$base" = asan ] && export RUSTFLAGS="-Zsanitizer=address"
        export RUSTC_WRAPPER="$here/harness/rustc-wrap.sh"
        cargo $tc "${args[@]}" 2>"$P2T_BIN/$cfg.log"
    ) || { echo "build $cfg failed:" >&2; grep -A12 '^error' "$P2T_BIN/$cfg.log" | head -60 >&2; return 2; }
    mkdir -p "$P2T_BIN/bin" && cp "$P2T_BIN/$base/$sub/p2tcheck" "$P2T_BIN/bin/$cfg.new" &&
        mv "$P2T_BIN/bin/$cfg.new" "$P2T_BIN/bin/$cfg"
}

build() {
    mkdir -p "$P2T_BIN"
    local pids=() p bad=0
    for c in "$@"; do build_one "$c" & pids+=($!); done
    for p in "${pids[@]}"; do wait "$p" || bad=1; done
    return $bad
}

configs() {
    case "$1" in
        C01 | C18) echo r64 c64 r32 c32 ;;
        C02 | C03 | C04 | C05 | C06 | C07 | C08 | C09 | C16 | C21 | C22 | C23 | C30) echo r64 r32 ;;
        C20) echo c64 asan ;;
        C13 | C14 | C15 | C25 | C26 | C27 | C28) echo r64m c64m r32m ;;
        C31) echo r64 miri ;;
        C24) echo c64m asanm ;;
        *) echo r64 ;;
    esac
}

driver() {
    for c in "$@"; do case "$c" in asan* | miri) ;; *) echo "$P2T_BIN/bin/$c"; return ;; esac; done
}

case "${1:-}" in
    build)
        shift
        build "$@" || exit 2
        ;;
    selftest)
        build r64m r32 || exit 2
        "$P2T_BIN/bin/r64m" selftest || exit 2
        "$P2T_BIN/bin/r32" selftest || exit 2
        ;;
    replay)
        id="$(sed -n 's/^PROPERTY //p' "$2" | head -1)"
        cfgs="$(configs "$id")"
        build $cfgs || exit 2
        exec "$(driver $cfgs)" replay "$2"
        ;;
    C[0-9]*)
        cfgs="$(configs "$1")"
        build $cfgs || exit 2
        exec "$(driver $cfgs)" drive "$1" "${2:-${VERIF_TIER:-quick}}"
        ;;
    *)
        sed -n 2,8p "$0"
        exit 2
        ;;
esac
