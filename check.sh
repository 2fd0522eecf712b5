#!/bin/bash
# check.sh setup              build the harness against /repo's working tree
# check.sh ID quick|thorough  decide property ID
# check.sh replay ID FILE     run one recorded case
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MIRIFLAGS
H=$PWD/harness
T=$H/target
mkdir -p "$T"
REPO=${CMH_REPO:-/repo}
# cargo looks at time stamps; a change of content with an old time stamp must be seen too
stamp=$( (cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
# fresh NAME DIR PACKAGES...: forget what was built in DIR from another content of the repository
fresh() {
    local name=$1 dir=$2 man=$3 opt=$4
    shift 4
    if [ "$(cat "$T/.stamp.$name" 2>/dev/null)" != "$stamp" ]; then
        CARGO_TARGET_DIR=$dir cargo clean --offline --manifest-path "$man" $opt "$@" >/dev/null 2>&1
    fi
}
built() { echo "$stamp" >"$T/.stamp.$1"; }
broken() {
    cat "$T/.build.log" >&2
    echo "error: the harness does not build against $REPO" >&2
    return 1
}
# build BINARY (cmh, cmi): the checks themselves
build() {
    exec 9>"$T/.check.lock"
    flock 9
    fresh main "$T" "$H/Cargo.toml" --release -p cycle_map -p cm_harness
    (cd "$H" && cargo build --release --offline --bin "$1") >"$T/.build.log" 2>&1 || { broken; return 1; }
    built main
    flock -u 9
    exec 9>&-
}
# the program whose use of memory C31 observes, for AddressSanitizer and for Miri
build_mem() {
    local t=x86_64-unknown-linux-gnu man=$H/mem/Cargo.toml
    exec 9>"$T/.check.lock"
    flock 9
    unset RUSTC_WRAPPER
    fresh asan "$T/mem-asan" "$man" "--release --target $t" -p cycle_map -p cm_mem
    RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=on" CARGO_TARGET_DIR=$T/mem-asan \
        cargo +nightly build --release --offline --target $t --manifest-path "$man" >"$T/.build.log" 2>&1 || { broken; return 1; }
    built asan
    fresh miri "$T/mem-miri" "$man" "" -p cycle_map -p cm_mem
    # an empty input: only what must be compiled once
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" CARGO_TARGET_DIR=$T/mem-miri \
        cargo +nightly miri run --offline --manifest-path "$man" </dev/null >"$T/.build.log" 2>&1 || { broken; return 1; }
    built miri
    flock -u 9
    exec 9>&-
}
bin() { [ "$1" = C30 ] && echo cmi || echo cmh; }
case "${1:-}" in
setup)
    build cmh && build cmi && build_mem || exit 2
    ;;
replay)
    build "$(bin "$2")" || exit 2
    [ "$2" != C31 ] || build_mem || exit 2
    exec "$T/release/$(bin "$2")" replay "$2" "$3"
    ;;
C*)
    build "$(bin "$1")" || exit 2
    [ "$1" != C31 ] || build_mem || exit 2
    CMH_ROOT=${CMH_ROOT:-$PWD} exec "$T/release/$(bin "$1")" run "$1" "${2:-quick}"
    ;;
*)
    echo "usage: check.sh setup | ID quick|thorough | replay ID FILE" >&2
    exit 2
    ;;
esac
